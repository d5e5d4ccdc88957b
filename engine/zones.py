"""Ordered-entry domain: a sorted collection of entries of unknown size, seen through a finite list of nodes.

Nodes (ghost key (Z, name)), in key order:
  ('E', id, mark, eqs)   one entry; mark True/False/None (is it in the sparse offset table?); eqs: probes equal to its key
  ('R', id, kind)        one or more entries nobody points at; kind 'u': none of them marked, 'm': unknown
  ('Q', names)           the position of probes that equal no entry
Runs are focused into single entries when an operation needs one, and entries nobody references are folded back
into runs at loop heads, so loops over any number of entries reach a fixpoint."""
from . import lin as L
from .core import Fork, Undecided, norm_segs

END = 'end'


def is_e(n):
    return n[0] == 'E'


class Zones:
    def __init__(self, key='z', marks=True):
        self.key = key
        self.marks = marks

    def get(self, s):
        return s.ghost[self.key]

    def put(self, s, z):
        s.gset(self.key, tuple(z))

    def fork(self, alts):
        raise Fork([('gset', self.key, tuple(a)) for a in alts])

    def new_ids(self, z, n):
        used = set(x[1] for x in z if x[0] in 'ER')
        out = []
        i = 1
        while len(out) < n:
            if i not in used:
                out.append(i)
            i += 1
        return out

    def index(self, z, i):
        for k, x in enumerate(z):
            if x[0] in 'ER' and x[1] == i:
                return k
        raise Undecided('stale entry reference')

    def entries(self, z):
        return [x for x in z if x[0] in 'ER']

    def is_first(self, z, k):
        return not any(x[0] in 'ER' for x in z[:k])

    # focus: node k must become a single entry at the given side
    def split(self, z, k, side):
        """alternatives for run k with a single entry isolated at side 'first' / 'last'"""
        R = z[k]
        a, b = self.new_ids(z, 2)
        mk = False if R[2] == 'u' else None
        e = ('E', a, mk, frozenset())
        r = ('R', b, R[2])
        if side == 'first':
            return [z[:k] + (e,) + z[k + 1:], z[:k] + (e, r) + z[k + 1:]]
        return [z[:k] + (e,) + z[k + 1:], z[:k] + (r, e) + z[k + 1:]]

    def first(self, s):
        return self.at_or_after(s, 0)

    def last(self, s):
        return self.at_or_before(s, len(self.get(s)) - 1)

    def at_or_after(self, s, k):
        z = self.get(s)
        for j in range(k, len(z)):
            if z[j][0] == 'E':
                return z[j][1]
            if z[j][0] == 'R':
                self.fork(self.split(z, j, 'first'))
        return None

    def at_or_before(self, s, k):
        z = self.get(s)
        for j in range(k, -1, -1):
            if z[j][0] == 'E':
                return z[j][1]
            if z[j][0] == 'R':
                self.fork(self.split(z, j, 'last'))
        return None

    def succ(self, s, i):
        return self.at_or_after(s, self.index(self.get(s), i) + 1)

    def pred(self, s, i):
        return self.at_or_before(s, self.index(self.get(s), i) - 1)

    # marks
    def marked(self, s, i):
        z = self.get(s)
        k = self.index(z, i)
        m = z[k][2]
        if self.is_first(z, k):
            return True
        if m is None:
            e = z[k]
            self.fork([z[:k] + (('E', e[1], t, e[3]),) + z[k + 1:] for t in (True, False)])
        return m

    def mark_before(self, s, k):
        """last marked entry strictly before node index k"""
        z = self.get(s)
        for j in range(k - 1, -1, -1):
            x = z[j]
            if x[0] == 'E':
                if self.marked(s, x[1]):
                    return x[1]
            elif x[0] == 'R':
                if x[2] == 'u':
                    continue
                a, b, c = self.new_ids(z, 3)
                e = ('E', a, True, frozenset())
                rm = ('R', b, 'm')
                ru = ('R', c, 'u')
                alts = [(e,), (e, ru), (rm, e), (rm, e, ru)]
                if not self.is_first(z, j):
                    alts.append((('R', x[1], 'u'),))
                self.fork([z[:j] + y + z[j + 1:] for y in alts])
        return None

    def mark_after(self, s, k):
        z = self.get(s)
        for j in range(k + 1, len(z)):
            x = z[j]
            if x[0] == 'E':
                if self.marked(s, x[1]):
                    return x[1]
            elif x[0] == 'R':
                if x[2] == 'u':
                    continue
                a, b, c = self.new_ids(z, 3)
                e = ('E', a, True, frozenset())
                rm = ('R', b, 'm')
                ru = ('R', c, 'u')
                alts = [(e,), (ru, e), (e, rm), (ru, e, rm)]
                if not self.is_first(z, j):
                    alts.append((('R', x[1], 'u'),))
                self.fork([z[:j] + y + z[j + 1:] for y in alts])
        return None

    # order
    def cmp_entry(self, s, a, b):
        if a == b:
            return 0
        z = self.get(s)
        i, j = self.index(z, a), self.index(z, b)
        return -1 if i < j else 1

    def probe_index(self, z, q):
        for k, x in enumerate(z):
            if x[0] == 'Q' and q in x[1]:
                return k
            if x[0] == 'E' and q in x[3]:
                return k
        raise Undecided('unplaced probe')

    def cmp_probe(self, s, a, q):
        """order of entry (or run) a against probe q"""
        z = self.get(s)
        i, j = self.index(z, a), self.probe_index(z, q)
        return 0 if i == j else -1 if i < j else 1

    def cmp_probes(self, s, p, q):
        z = self.get(s)
        i, j = self.probe_index(z, p), self.probe_index(z, q)
        return 0 if i == j else -1 if i < j else 1

    def place_alts(self, z, q):
        """all node lists with probe q placed somewhere"""
        out = []
        n = len(z)
        for k in range(n + 1):
            left = z[k - 1] if k else None
            right = z[k] if k < n else None
            # a fresh gap; skip the gap right after a Q (covered by the gap before + join, order among probes matters)
            out.append(z[:k] + (('Q', frozenset([q])),) + z[k:])
            if right is None:
                continue
            if right[0] == 'Q':
                out.append(z[:k] + (('Q', right[1] | {q}),) + z[k + 1:])
            elif right[0] == 'E':
                out.append(z[:k] + (('E', right[1], right[2], right[3] | {q}),) + z[k + 1:])
            else:
                a, b, c = self.new_ids(z, 3)
                knd = right[2]
                mk = False if knd == 'u' else None
                e = ('E', a, mk, frozenset([q]))
                l, r = ('R', b, knd), ('R', c, knd)
                out.append(z[:k] + (l, ('Q', frozenset([q])), r) + z[k + 1:])
                for y in ((e,), (l, e), (e, r), (l, e, r)):
                    out.append(z[:k] + y + z[k + 1:])
        return out

    def drop_probe(self, s, q):
        z = []
        for x in self.get(s):
            if x[0] == 'Q':
                n = x[1] - {q}
                if n:
                    z.append(('Q', n))
            elif x[0] == 'E':
                z.append(('E', x[1], x[2], x[3] - {q}))
            else:
                z.append(x)
        self.put(s, z)

    # folding
    def fold(self, s, keep, also=()):
        """merge entries not in keep into runs and give the rest canonical ids; returns the renaming"""
        z = self.get(s)
        out = []
        seen_entry = False
        for x in z:
            if x[0] == 'E' and x[1] not in keep and not x[3]:
                if not self.marks:
                    x = ('R', x[1], 'u')
                else:
                    x = ('R', x[1], 'u' if (x[2] is False and seen_entry) else 'm')
            if x[0] in 'ER':
                seen_entry = True
            if x[0] == 'R' and out and out[-1][0] == 'R':
                y = out[-1]
                out[-1] = ('R', y[1], 'u' if y[2] == 'u' and x[2] == 'u' else 'm')
                continue
            if x[0] == 'E' and not self.marks:
                x = ('E', x[1], False, x[3])
            out.append(x)
        ren = {}
        res = []
        n = 100
        for x in out:
            if x[0] in 'ER':
                n += 1
                if x[0] == 'E' and isinstance(x[1], str):
                    ren[x[1]] = x[1]
                else:
                    ren[x[1]] = n
                res.append((x[0], ren[x[1]]) + x[2:])
            else:
                res.append(x)
        self.put(s, res)
        return ren


def walk_refs(v, tags, out):
    """collect ids used in (tag, id) atoms/objects inside a value"""
    if isinstance(v, tuple):
        if len(v) >= 2 and isinstance(v[0], str) and v[0] in tags and not isinstance(v[1], tuple):
            out.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                walk_refs(x, tags, out)


def rename_refs(v, tags, ren):
    if isinstance(v, tuple):
        if len(v) >= 2 and isinstance(v[0], str) and v[0] in tags and not isinstance(v[1], tuple):
            return (v[0], ren.get(v[1], v[1])) + tuple(rename_refs(x, tags, ren) for x in v[2:])
        w = tuple(rename_refs(x, tags, ren) if isinstance(x, tuple) else x for x in v)
        if w and w[0] == 'lin' and w != v:
            w = (w[0], w[1], tuple(sorted(w[2], key=lambda t: L.akey(t[0]))))
        return w
    return v
