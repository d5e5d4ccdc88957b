"""Linear expressions over atoms and the fact base of an abstract state.

An integer value is a Python int (known), ('lin', c, ((atom, k), ...)) or ('bv', bits).
Formulas: True/False, ('ge0', lin), ('eq0', lin), ('not', f), ('and', f, g), ('or', f, g), ('b', key)."""
from fractions import Fraction
from math import gcd
from functools import lru_cache


@lru_cache(maxsize=None)
def akey(a):
    return repr(a)


def parts(v):
    if isinstance(v, int):
        return v, ()
    return v[1], v[2]


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: akey(x[0])))
    if not t:
        return c
    return ('lin', c, t)


def atom(a):
    return ('lin', 0, ((a, 1),))


def is_lin(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v[0] == 'lin')


def add(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    c1, t1 = parts(a)
    c2, t2 = parts(b)
    d = dict(t1)
    for x, y in t2:
        d[x] = d.get(x, 0) + k * y
    return mk(c1 + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, t = parts(a)
    return mk(c * k, {x: y * k for x, y in t})


def ge0(l):
    if isinstance(l, int):
        return l >= 0
    g = 0
    for _, k in l[2]:
        g = gcd(g, abs(k))
    if g > 1:
        l = ('lin', l[1] // g, tuple((a, k // g) for a, k in l[2]))
    return ('ge0', l)


def eq0(l):
    if isinstance(l, int):
        return l == 0
    if l[2][0][1] < 0:
        l = scale(l, -1)
    g = 0
    for _, k in l[2]:
        g = gcd(g, abs(k))
    if l[1] % g:
        return False
    if g > 1:
        l = ('lin', l[1] // g, tuple((a, k // g) for a, k in l[2]))
    return ('eq0', l)


def neg(f):
    if f is True or f is False:
        return not f
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge0':
        return ge0(sub(-1, f[1]))
    if f[0] == 'and':
        return or_(neg(f[1]), neg(f[2]))
    if f[0] == 'or':
        return and_(neg(f[1]), neg(f[2]))
    return ('not', f)


def and_(f, g):
    if f is False or g is False:
        return False
    if f is True:
        return g
    if g is True:
        return f
    return ('and', f, g)


def or_(f, g):
    if f is True or g is True:
        return True
    if f is False:
        return g
    if g is False:
        return f
    return ('or', f, g)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), -1))


def eq(a, b):
    return eq0(sub(a, b))


class Facts:
    """Immutable fact base; every update returns a new object, or None when inconsistent."""
    __slots__ = ('rng', 'ineq', 'ne', 'b', '_h', '_c')

    def __init__(self, rng=None, ineq=frozenset(), ne=frozenset(), b=None):
        self.rng = rng or {}
        self.ineq = ineq
        self.ne = ne
        self.b = b or {}
        self._h = None
        self._c = {}

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.rng.items()), self.ineq, self.ne, frozenset(self.b.items()))
        return self._h

    def bounds(self, a):
        r = self.rng.get(a)
        if r is None:
            if isinstance(a, tuple) and a[0] == 'bvval':
                return (0, (1 << len(a[1])) - 1)
            if isinstance(a, tuple) and a[0] == 'len':
                return (0, 1 << 47)     # no byte string is longer than an address space
            if isinstance(a, tuple) and a[0] in ('off', 'nxt', 'len', 'u'):
                return (0, 1 << 62)
            return (None, None)
        return r

    def with_range(self, a, lo, hi):
        l0, h0 = self.bounds(a)
        lo = l0 if lo is None else (lo if l0 is None else max(lo, l0))
        hi = h0 if hi is None else (hi if h0 is None else min(hi, h0))
        if lo is not None and hi is not None and lo > hi:
            return None
        if (lo, hi) == (l0, h0):
            return self
        r = dict(self.rng)
        r[a] = (lo, hi)
        return Facts(r, self.ineq, self.ne, self.b)

    def interval(self, l):
        c, t = parts(l)
        lo = hi = c
        for a, k in t:
            l0, h0 = self.bounds(a)
            if k < 0:
                l0, h0 = h0, l0
            lo = None if lo is None or l0 is None else lo + k * l0
            hi = None if hi is None or h0 is None else hi + k * h0
        return lo, hi

    # -- linear entailment: interval, then Fourier-Motzkin on the related facts
    def prove_ge0(self, l):
        if isinstance(l, int):
            return l >= 0
        lo, _ = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        if not self.ineq:
            return False
        if l in self.ineq:
            return True
        r = self._c.get(l)
        if r is None:
            r = self._c[l] = self._infeasible(sub(-1, l))
        return r

    def _infeasible(self, goal):
        """facts /\\ goal >= 0 has no rational solution"""
        rel = set(a for a, _ in goal[2])
        cons = []
        todo = list(self.ineq)
        ch = True
        while ch:
            ch = False
            rest = []
            for q in todo:
                if any(a in rel for a, _ in q[2]):
                    cons.append(q)
                    for a, _ in q[2]:
                        if a not in rel:
                            rel.add(a)
                            ch = True
                else:
                    rest.append(q)
            todo = rest
        cons.append(goal)
        for a in rel:
            lo, hi = self.bounds(a)
            if lo is not None:
                cons.append(('lin', -lo, ((a, 1),)))
            if hi is not None:
                cons.append(('lin', hi, ((a, -1),)))
        return fm_infeasible(cons)

    def prove(self, f):
        """True / False / None"""
        if f is True or f is False:
            return f
        t = f[0]
        if t == 'ge0':
            if self.prove_ge0(f[1]):
                return True
            if self.prove_ge0(sub(-1, f[1])):
                return False
            return None
        if t == 'eq0':
            l = f[1]
            if l in self.ne:
                return False
            if self.prove_ge0(add(l, -1)) or self.prove_ge0(sub(-1, l)):
                return False
            if self.prove_ge0(l) and self.prove_ge0(scale(l, -1)):
                return True
            return None
        if t == 'not':
            r = self.prove(f[1])
            return None if r is None else not r
        if t == 'and':
            a = self.prove(f[1])
            b = self.prove(f[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t == 'or':
            a = self.prove(f[1])
            b = self.prove(f[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if t == 'b':
            return self.b.get(f[1])
        raise ValueError(f)

    def assume(self, f):
        """new Facts with f, or None when contradictory (disjunctions are dropped unless decided)"""
        if f is True:
            return self
        if f is False:
            return None
        r = self.prove(f)
        if r is True:
            return self
        if r is False:
            return None
        t = f[0]
        if t == 'ge0':
            return self._add_ge0(f[1])
        if t == 'eq0':
            l = f[1]
            x = self._add_ge0(l)
            x = x and x._add_ge0(scale(l, -1))
            return x
        if t == 'not' and f[1][0] == 'eq0':
            l = f[1][1]
            x = Facts(self.rng, self.ineq, self.ne | {l}, self.b)
            # sharpen at a bound
            if x.prove_ge0(l):
                return x._add_ge0(add(l, -1))
            if x.prove_ge0(scale(l, -1)):
                return x._add_ge0(sub(-1, l))
            return x
        if t == 'and':
            x = self.assume(f[1])
            return x and x.assume(f[2])
        if t == 'or':
            a = self.prove(f[1])
            b = self.prove(f[2])
            if a is False:
                return self.assume(f[2])
            if b is False:
                return self.assume(f[1])
            return self
        if t == 'b':
            return self.bind(f[1], True)
        if t == 'not' and f[1][0] == 'b':
            return self.bind(f[1][1], False)
        raise ValueError(f)

    def bind(self, k, v):
        o = self.b.get(k)
        if o is not None:
            return self if o == v else None
        b = dict(self.b)
        b[k] = v
        return Facts(self.rng, self.ineq, self.ne, b)

    def _add_ge0(self, l):
        if isinstance(l, int):
            return self if l >= 0 else None
        c, t = l[1], l[2]
        if len(t) == 1:
            a, k = t[0]
            if k > 0:
                x = self.with_range(a, -(c // k), None)
            else:
                x = self.with_range(a, None, c // (-k))
        else:
            x = Facts(self.rng, self.ineq | {l}, self.ne, self.b)
        if x is None:
            return None
        for n in self.ne:
            if x.prove_ge0(n) and x.prove_ge0(scale(n, -1)):
                return None
        return x

    def value(self, l):
        """the single value of l, if pinned"""
        if isinstance(l, int):
            return l
        lo, hi = self.interval(l)
        if lo is not None and lo == hi:
            return lo
        return None


def fm_infeasible(cons, cap=400):
    rows = []
    for q in cons:
        if isinstance(q, int):
            if q < 0:
                return True
            continue
        rows.append((q[1], dict(q[2])))
    # equalities first: substitute pairs l>=0, -l>=0 with a unit coefficient
    while True:
        atoms = {}
        for c, d in rows:
            for a, k in d.items():
                p = atoms.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not atoms:
            break
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1] - atoms[x][0] - atoms[x][1], akey(x)))
        pos = [r for r in rows if r[1].get(a, 0) > 0]
        ngs = [r for r in rows if r[1].get(a, 0) < 0]
        rest = [r for r in rows if a not in r[1]]
        seen = set()
        for c1, d1 in pos:
            for c2, d2 in ngs:
                k1 = d1[a]
                k2 = -d2[a]
                d = {}
                for x, y in d1.items():
                    d[x] = d.get(x, 0) + y * k2
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + y * k1
                c = c1 * k2 + c2 * k1
                d = {x: y for x, y in d.items() if y}
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                for y in d.values():
                    g = gcd(g, abs(y))
                if g > 1:
                    d = {x: y // g for x, y in d.items()}
                    c = c // g  # integer tightening
                kk = frozenset(d.items())
                if (kk, c) in seen:
                    continue
                seen.add((kk, c))
                rest.append((c, d))
        best = {}
        for c, d in rest:
            kk = frozenset(d.items())
            if kk not in best or best[kk][0] > c:
                best[kk] = (c, d)
        rows = list(best.values())
        if len(rows) > cap:
            return False
    return any(c < 0 for c, d in rows if not d)


def bv_eval(bits, env):
    n = 0
    for i, x in enumerate(bits):
        if isinstance(x, int):
            n |= x << i
        elif x[0] == 'b' and x[1] in env:
            n |= ((env[x[1]] >> x[2]) & 1) << i
        else:
            return None
    return n


def find_model(facts, atoms, goal, cands=None, limit=200000):
    """Small integer assignment satisfying all linear facts and goal (a formula), or None."""
    atoms = list(dict.fromkeys(atoms))
    rel = set(atoms)
    for q in facts.ineq:
        for a, _ in q[2]:
            if a not in rel:
                rel.add(a)
                atoms.append(a)
    for a in [a for a in atoms if isinstance(a, tuple) and a[0] == 'bvval']:
        atoms.remove(a)
        for x in a[1]:
            if isinstance(x, tuple) and x[0] == 'b' and x[1] not in atoms:
                atoms.append(x[1])
    base = cands or [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 64, 127, 128, 255, 256, 1023, 1024, 1025,
                     4096, 65535, 65536, 131072, 131088, 262144]
    doms = []
    for a in atoms:
        lo, hi = facts.bounds(a)
        s = set(x for x in base if (lo is None or x >= lo) and (hi is None or x <= hi))
        for e in (lo, hi):
            if e is not None:
                for dlt in (-1, 0, 1):
                    x = e + dlt
                    if (lo is None or x >= lo) and (hi is None or x <= hi):
                        s.add(x)
        if lo is not None and lo > 0:
            for x in (lo + 7, lo + 15, lo + 16, 2 * lo):
                if hi is None or x <= hi:
                    s.add(x)
        doms.append(sorted(s))
    count = [0]

    def ev(l, env):
        c, t = parts(l)
        for a, k in t:
            if a not in env:
                if isinstance(a, tuple) and a[0] == 'bvval':
                    v = bv_eval(a[1], env)
                    if v is None:
                        return None
                    c += k * v
                    continue
                return None
            c += k * env[a]
        return c

    def evf(f, env):
        if f is True or f is False:
            return f
        if f[0] == 'ge0':
            v = ev(f[1], env)
            return None if v is None else v >= 0
        if f[0] == 'eq0':
            v = ev(f[1], env)
            return None if v is None else v == 0
        if f[0] == 'not':
            v = evf(f[1], env)
            return None if v is None else not v
        if f[0] == 'and':
            a, b = evf(f[1], env), evf(f[2], env)
            if a is False or b is False:
                return False
            return None if a is None or b is None else True
        if f[0] == 'or':
            a, b = evf(f[1], env), evf(f[2], env)
            if a or b:
                return True
            return None if a is None or b is None else False
        return None

    lins = list(facts.ineq)
    checks = [('ge0', q) for q in facts.ineq] + [('not', ('eq0', q)) for q in facts.ne] + [goal]

    def rec(i, env):
        count[0] += 1
        if count[0] > limit:
            return None
        for f in checks:
            if evf(f, env) is False:
                return None
        if i == len(atoms):
            return dict(env) if evf(goal, env) is True else None
        # the facts whose other atoms are settled bound this one
        a = atoms[i]
        lo, hi = facts.bounds(a)
        lo = 0 if lo is None else lo        # every measured quantity is a count or a length
        for q in lins:
            c, tt = parts(q)
            k = None
            for b, kb in tt:
                if b == a:
                    k = kb
                elif b in env:
                    c += kb * env[b]
                else:
                    k = None
                    break
            if k is None:
                continue
            if k > 0:
                m = -(c // k)
                lo = m if lo is None or m > lo else lo
            else:
                m = c // -k
                hi = m if hi is None or m < hi else hi
        if lo is not None and hi is not None and lo > hi:
            return None
        cand = [x for x in doms[i] if (lo is None or x >= lo) and (hi is None or x <= hi)]
        cand += [x for x in (lo, hi) if x is not None and x not in cand]
        for x in cand:
            env[atoms[i]] = x
            r = rec(i + 1, env)
            if r is not None:
                return r
            del env[atoms[i]]
        return None
    return rec(0, {})
