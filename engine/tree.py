"""Index-tree domain: a file of unknown size seen as a tree of blocks, each a sorted list of entries of which only
the ones something points at are distinguished.

ghost ('zb', b) node list of block b: ('E', id, eqs) one entry / ('R', id, opt) a run of entries (opt: possibly
none) / ('Q', names) the place of probes equal to no entry. ('ch', e) the materialised child block of index entry e,
('up', b) its parent entry, ('lv', b) the level (0 = root index block, L+1 = data). The key of an index entry is the
last key of its child. Entry ids are b*1000+n."""
from . import lin as L
from .core import *
from .zones import walk_refs, rename_refs

ETAGS = ('key', 'val', 'boff', 'pos')


class Tree:
    def __init__(self, levels):
        self.levels = levels

    def setup(self, s, empty):
        s.gset(('zb', 1), () if empty else (('R', 1001, False),))
        s.gset(('lv', 1), 0)
        s.gset(('up', 1), None)

    def nodes(self, s, b):
        z = s.g(('zb', b))
        if z is None:
            raise Undecided('unknown block')
        return z

    def ids(self, z, b, n):
        used = set(x[1] for x in z if x[0] in 'ER')
        out, i = [], b * 1000 + 1
        while len(out) < n:
            if i not in used:
                out.append(i)
            i += 1
        return out

    def fork(self, b, alts):
        raise Fork([('gset', ('zb', b), tuple(a)) for a in alts])

    def index(self, z, e):
        for k, x in enumerate(z):
            if x[0] in 'ER' and x[1] == e:
                return k
        raise Undecided('stale entry reference')

    def at_or_after(self, s, b, k):
        z = self.nodes(s, b)
        for j in range(k, len(z)):
            x = z[j]
            if x[0] == 'E':
                return x[1]
            if x[0] == 'R':
                a, c = self.ids(z, b, 2)
                alts = [z[:j] + (('E', a, frozenset()), ('R', c, True)) + z[j + 1:]]
                if x[2]:
                    alts.append(z[:j] + z[j + 1:])
                self.fork(b, alts)
        return None

    def at_or_before(self, s, b, k):
        z = self.nodes(s, b)
        for j in range(k, -1, -1):
            x = z[j]
            if x[0] == 'E':
                return x[1]
            if x[0] == 'R':
                a, c = self.ids(z, b, 2)
                alts = [z[:j] + (('R', c, True), ('E', a, frozenset())) + z[j + 1:]]
                if x[2]:
                    alts.append(z[:j] + z[j + 1:])
                self.fork(b, alts)
        return None

    def first(self, s, b):
        return self.at_or_after(s, b, 0)

    def last(self, s, b):
        return self.at_or_before(s, b, len(self.nodes(s, b)) - 1)

    def succ(self, s, e):
        b = e // 1000
        return self.at_or_after(s, b, self.index(self.nodes(s, b), e) + 1)

    def pred(self, s, e):
        b = e // 1000
        return self.at_or_before(s, b, self.index(self.nodes(s, b), e) - 1)

    def is_data(self, s, b):
        return s.g(('lv', b)) == self.levels + 1

    def child(self, s, e):
        if self.is_data(s, e // 1000):
            raise Undecided('block offset taken from a data entry')
        b = s.g(('ch', e))
        if b is None:
            b = 2
            while s.g(('zb', b)) is not None:
                b += 1
            raise Fork([('gsets', ((('ch', e), b), (('up', b), e), (('lv', b), s.g(('lv', e // 1000)) + 1),
                                   (('zb', b), (('R', b * 1000 + 1, False),))))])
        return b

    # probes
    def find(self, z, q):
        for k, x in enumerate(z):
            if x[0] == 'Q' and q in x[1]:
                return k
            if x[0] == 'E' and q in x[2]:
                return k
        return None

    def placements(self, z, b, q):
        out = []
        n = len(z)
        Q = ('Q', frozenset([q]))
        i1, i2, i3 = self.ids(z, b, 3)
        for k in range(n + 1):
            x = z[k] if k < n else None
            prev = z[k - 1] if k else None
            if x is None or x[0] == 'E':
                if prev is None or prev[0] == 'E':
                    out.append(z[:k] + (Q,) + z[k:])
                if x is not None:
                    out.append(z[:k] + (('E', x[1], x[2] | {q}),) + z[k + 1:])
            elif x[0] == 'R':
                eq = (('R', i1, True), ('E', i2, frozenset([q])), ('R', i3, True))
                out.append(z[:k] + eq + z[k + 1:])
                if x[2]:
                    out.append(z[:k] + (('R', i1, True), Q, ('R', i3, True)) + z[k + 1:])
                else:
                    out.append(z[:k] + (Q, x) + z[k + 1:])
                    out.append(z[:k] + (('R', i1, False), Q, ('R', i3, True)) + z[k + 1:])
            else:
                raise Undecided('two probes')
        return out

    def relation(self, s, b, q):
        z = self.nodes(s, b)
        if self.find(z, q) is not None:
            return 'in'
        e = s.g(('up', b))
        if e is None:
            self.fork(b, self.placements(z, b, q))
        p = e // 1000
        r = self.relation(s, p, q)
        if r != 'in':
            return r
        y = self.nodes(s, p)
        kq, ke = self.find(y, q), self.index(y, e)
        if kq == ke:
            i1, i2 = self.ids(z, b, 2)
            x = z[-1]
            if x[0] == 'E':
                alts = [z[:-1] + (('E', x[1], x[2] | {q}),)]
            elif x[0] == 'R' and not x[2]:
                alts = [z[:-1] + (('R', i1, True), ('E', i2, frozenset([q])))]
            elif x[0] == 'R':
                alts = [z[:-1] + (('R', i1, True), ('E', i2, frozenset([q])))]
                if len(z) > 1:
                    alts.append(z[:-1])
            else:
                raise Undecided('two probes')
            self.fork(b, alts)
        if kq > ke:
            return 'lt'
        if y[kq][0] == 'E':
            return 'gt'
        for j in range(kq + 1, ke):
            if y[j][0] == 'E' or (y[j][0] == 'R' and not y[j][2]):
                return 'gt'
            if y[j][0] == 'R':
                self.fork(p, [y[:j] + y[j + 1:], y[:j] + (('R', y[j][1], False),) + y[j + 1:]])
        alts = []
        for a in self.placements(z, b, q):
            k = self.find(a, q)
            rest = a[k + 1:]
            if any(x[0] == 'E' or (x[0] == 'R' and not x[2]) for x in rest):
                alts.append(a)
            elif rest:
                rr = list(rest)
                for j in range(len(rr) - 1, -1, -1):
                    if rr[j][0] == 'R':
                        rr[j] = ('R', rr[j][1], False)
                        alts.append(a[:k + 1] + tuple(rr))
                        break
        if not alts:
            raise Infeasible()
        self.fork(b, alts)

    def ge(self, s, b, q):
        r = self.relation(s, b, q)
        if r == 'lt':
            return None
        if r == 'gt':
            return self.first(s, b)
        z = self.nodes(s, b)
        k = self.find(z, q)
        return z[k][1] if z[k][0] == 'E' else self.at_or_after(s, b, k)

    def le(self, s, b, q):
        r = self.relation(s, b, q)
        if r == 'lt':
            return self.last(s, b)
        if r == 'gt':
            return None
        z = self.nodes(s, b)
        k = self.find(z, q)
        return z[k][1] if z[k][0] == 'E' else self.at_or_before(s, b, k)

    def cmp(self, s, e, q):
        b = e // 1000
        r = self.relation(s, b, q)
        if r == 'lt':
            return -1
        if r == 'gt':
            return 1
        z = self.nodes(s, b)
        i, j = self.index(z, e), self.find(z, q)
        return (i > j) - (i < j)

    # file-level navigation (the specification)
    def leaf_first(self, s, b):
        while True:
            e = self.first(s, b)
            if e is None or self.is_data(s, b):
                return e
            b = self.child(s, e)

    def leaf_last(self, s, b):
        while True:
            e = self.last(s, b)
            if e is None or self.is_data(s, b):
                return e
            b = self.child(s, e)

    def leaf_step(self, s, e, fwd):
        b = e // 1000
        while True:
            n = self.succ(s, e) if fwd else self.pred(s, e)
            if n is not None:
                break
            e = s.g(('up', b))
            if e is None:
                return None
            b = e // 1000
        if self.is_data(s, b):
            return n
        c = self.child(s, n)
        return self.leaf_first(s, c) if fwd else self.leaf_last(s, c)

    def leaf_ge(self, s, q):
        b = 1
        while True:
            e = self.ge(s, b, q)
            if e is None or self.is_data(s, b):
                return e
            b = self.child(s, e)

    # folding between operations
    def fold(self, s, keep, kblocks, exact):
        """drop what nothing refers to, rename canonically: (entry renaming, block renaming)"""
        live = set([1])
        kept = set(e for e in keep if isinstance(e, int))
        todo = list(kblocks) + [e // 1000 for e in kept]
        while todo:
            b = todo.pop()
            if b in live:
                continue
            live.add(b)
            e = s.g(('up', b))
            kept.add(e)
            todo.append(e // 1000)
        new = {}
        eren, bren = {}, {}
        count = [0]

        def visit(b):
            count[0] += 1
            nb = count[0]
            bren[b] = nb
            out = []
            for x in self.nodes(s, b):
                if x[0] == 'Q':
                    continue
                if x[0] == 'E' and x[1] not in kept:
                    x = ('R', x[1], False)
                if x[0] == 'R' and out and out[-1][0] == 'R':
                    out[-1] = ('R', out[-1][1], out[-1][2] and x[2])
                    continue
                out.append(x)
            if not exact and any(x[0] == 'E' for x in out):
                o2 = []
                for x in out:
                    if x[0] == 'E':
                        if not o2 or o2[-1][0] != 'R':
                            o2.append(('R', 0, True))
                        o2.append(x)
                    else:
                        o2.append(('R', x[1], True))
                if o2[-1][0] != 'R':
                    o2.append(('R', 0, True))
                out = o2
            res = []
            for n, x in enumerate(out):
                i = nb * 1000 + n + 1
                if x[0] == 'E':
                    eren[x[1]] = i
                    res.append(('E', i, frozenset()))
                else:
                    res.append(('R', i, x[2]))
            new[('zb', nb)] = tuple(res)
            new[('lv', nb)] = s.g(('lv', b))
            u = s.g(('up', b))
            new[('up', nb)] = None if u is None else eren[u]
            if u is not None:
                new[('ch', eren[u])] = nb
            for x in out:
                if x[0] == 'E':
                    c = s.g(('ch', x[1]))
                    if c is not None and c in live:
                        visit(c)
        visit(1)
        s.ghost = dict(s.ghost)
        for k in list(s.ghost):
            if isinstance(k, tuple) and k[0] in ('zb', 'lv', 'up', 'ch'):
                del s.ghost[k]
        for k, v in new.items():
            s.ghost[k] = v
        return eren, bren

    def show(self, s, b=1, mark=None):
        out = []
        for x in self.nodes(s, b):
            if x[0] == 'Q':
                out.append('|q|')
            elif x[0] == 'R':
                out.append('..' if x[2] else '.+.')
            else:
                c = s.g(('ch', x[1]))
                out.append('e%d%s%s' % (x[1], '=q' if x[2] else '', '{%s}' % self.show(s, c) if c else ''))
        return ' '.join(out)
