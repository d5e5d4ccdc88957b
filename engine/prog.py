"""Program facts: types, MIR bodies, item list, as dumped by driver/mirfacts."""
import json, re


def strip_generics(p):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`; keeps `<X as Y>` heads as `X as Y`."""
    out = []
    i = 0
    n = len(p)

    def match(i):
        d = 0
        while i < n:
            c = p[i]
            if c == '<':
                d += 1
            elif c == '>' and p[i - 1] not in '-=':
                d -= 1
                if d == 0:
                    return i
            i += 1
        return n - 1
    while i < n:
        c = p[i]
        if c == '<':
            j = match(i)
            inner = p[i + 1:j]
            # qualified path head?
            lead = (i == 0 or p[i - 1] in ' &(' or (p[i - 2:i] == '::' and inner.startswith('impl ')))
            if lead and (' as ' in inner or i == 0 or inner.startswith('impl ')):
                out.append('<' + strip_generics(inner) + '>')
            else:
                if out[-2:] == [':', ':']:
                    del out[-2:]
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.fns = d['fns']
        self.impls = d['impls']
        self.bodies = {}
        self.roots = []
        self.tmeth = {t: dict(v) for t, v in d['tmeth']}
        for b in d['bodies']:
            self.bodies[b['key']] = b
            b['np'] = strip_generics(b['path'])
            if b['root']:
                self.roots.append(b)
        self.bypath = {}
        for b in self.bodies.values():
            self.bypath.setdefault(b['np'], []).append(b)
        self._norm = {}

    def norm(self, s):
        r = self._norm.get(s)
        if r is None:
            r = self._norm[s] = strip_generics(s)
        return r

    def root(self, np, **kw):
        """the identity-substituted body of a crate function, by generic-free path"""
        for b in self.bypath.get(np, []):
            if b['root']:
                return b
        return None

    def tyname(self, t):
        return self.T[t]['s']

    def find_ty(self, s):
        for i, t in enumerate(self.T):
            if t['s'] == s:
                return i
        return None
