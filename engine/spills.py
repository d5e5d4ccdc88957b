"""How much a sorter holds: exact-size runs of the sorter (data in memory, chunks alive) and one inductive step of its
buffer over every fill level."""
from . import lin as L, grenad as G, merging as M, sorting as S
from .core import *

MB = 1 << 20


class SpillDom(S.SortDom):
    """stop: a spill ends the path"""
    stop = False

    def create(self, I, s):
        if self.stop:
            self.spilled += 1
            raise Infeasible()
        return super().create(I, s)


def symbols(v, out):
    if isinstance(v, tuple):
        if v and v[0] == 's' and len(v) == 4:
            out.add(v[1])
            return
        for x in v:
            symbols(x, out)


class Spills:
    def __init__(self, P):
        self.P = P
        self.sg = S.Sorting(P)

    def fresh(self, **kw):
        I = Interp(self.P, SpillDom(self.P, 3, **kw), overflow='report', max_steps=40000000)
        return State(), I

    WIDTH = 6

    def simulate(self, I, s, cfg, sizes, spills, bound=None, maxc=None, route=None, keys=3):
        """inserts entries of the given sizes until that many spills happened; [(kind, text)], facts about the run"""
        bad = []
        what = 'a sorter (%s) with a budget of %s' % (cfg.show(), cfg.threshold if cfg.threshold else 'the minimum')
        st = self.sg.build(I, s, cfg)
        f = dict(spills=0, inserts=0, peak=0, dropped=0, chunks=0)
        # (state, cell, data held, writers seen, chunks made, spills)
        cur = [(s1, c, {}, 0, 0, 0) for s1, c in st]
        top = 0
        for i, n in enumerate(sizes):
            k = 'k%d' % (i % keys)
            v = 'v%d' % i
            top = max(top, n)
            nxt = []
            for s, c, held, seen, made, done in cur:
                s.range(('len', k), 12, 12)
                s.range(('len', v), n - 12, n - 12)
                for s1, kd, x in I.run_body(s, self.sg.insert, [('ref', c, ()), ('snap', ('seq', (('s', k, 0, 12),))),
                                                                ('snap', ('seq', (('s', v, 0, n - 12),) if n > 12 else ()))]):
                    if kd != 'ret' or x[1] != 0:
                        if G.feasible(s1):
                            raise Undecided('insert fails')
                        continue
                    h = dict(held)
                    h[v] = n
                    w, m = s1.g('writers', 0), s1.g('created', 0)
                    if w > seen:
                        if m == made and G.feasible(s1):
                            bad.append(('creator', '%s wrote entries out at insert %d without a new chunk from the chunk creator' % (what, i + 1)))
                        gone = set()
                        for j in range(seen, w):
                            symbols(s1.g(('content', j), ()), gone)
                        for y in [y for y in h if y in gone]:
                            del h[y]
                    vol = sum(h.values())
                    f['peak'] = max(f['peak'], vol)
                    most = s1.g('most', 0)
                    f['chunks'] = max(f['chunks'], most)
                    d1 = done + (w > seen)
                    if bound is not None and vol > bound and G.feasible(s1):
                        bad.append(('volume', '%s holds %d bytes of entries inserted since the last spill (at most %d allowed) after %d inserts of at most %d bytes' % (
                            what, vol, bound, i + 1, top)))
                    if maxc is not None and most > maxc and G.feasible(s1):
                        bad.append(('chunks', '%s has %d chunks alive after %d spills, at most %d may be' % (what, most, d1, maxc)))
                    nxt.append((s1, c, h, w, m, d1))
            f['inserts'] = i + 1
            if bad:
                return bad, f
            f['dropped'] += max(0, len(nxt) - self.WIDTH)
            # keep the paths that spilled least and those that spilled most
            nxt.sort(key=lambda x: x[5])
            while len(nxt) > self.WIDTH:
                del nxt[len(nxt) // 2]
            cur = nxt
            if not cur:
                raise Undecided('no path')
            f['spills'] = min(x[5] for x in cur)
            if f['spills'] >= spills:
                break
        for s, c, held, seen, made, done in cur if route else ():
            args = [s.mem[c]]
            if route == 'stream':
                args.append(('ref', s.alloc(('obj', 'writer', 'w')), ()))
            for s1, kd, x in I.run_body(s, getattr(self.sg, route), args):
                if kd != 'ret' or x[1] != 0:
                    if G.feasible(s1):
                        raise Undecided('output fails')
                    continue
                m = s1.g('most', 0)
                f['chunks'] = max(f['chunks'], m)
                if maxc is not None and m > maxc and G.feasible(s1):
                    bad.append(('chunks', '%s has %d chunks alive while its output is prepared, at most %d may be' % (what, m, maxc)))
        return bad, f

    # ------------------------------------------------ the inductive step
    def shape(self, cfg):
        """paths of the fields (bytes stored, entries stored, capacity, buffer) inside the sorter value; None when not recognised"""
        s, I = self.fresh()
        s, c = self.sg.build(I, s, cfg)[0]
        snaps = [dict(leaves(s.mem[c]))]
        for j, (k, n) in enumerate((('k0', 17), ('k1', 30))):
            s.range(('len', k), 5, 5)
            s.range(('len', 'v%d' % j), n - 5, n - 5)
            r = I.run_body(s, self.sg.insert, [('ref', c, ()), ('snap', ('seq', (('s', k, 0, 5),))), ('snap', ('seq', (('s', 'v%d' % j, 0, n - 5),)))])
            s = r[0][0]
            snaps.append(dict(leaves(s.mem[c])))
        path = lambda *w: [p for p in snaps[0] if tuple(x.get(p) for x in snaps) == w]
        e, b = path(0, 17, 47), path(0, 1, 2)
        bufs = [p for p, v in snaps[0].items() if isinstance(v, tuple) and v[0] == 'ref' and s.g(('alloc', v[1])) is not None]
        if not (len(e) == 1 and len(b) == 1 and len(bufs) == 1):
            return None
        size = s.g(('alloc', snaps[0][bufs[0]][1]))[0]
        caps = path(size, size, size)
        caps = [p for p in caps if p[:-1][:len(bufs[0]) - 2] == bufs[0][:-1][:len(bufs[0]) - 2]] or caps
        if len(caps) != 1:
            caps = [p for p in caps if p[:-1] == bufs[0][:len(p) - 1]]
        if len(caps) != 1:
            return None
        return e[0], b[0], caps[0], bufs[0]

    def general(self, I, cfg, shape, cap, lim):
        """state, sorter cell and the fill level atoms of a sorter with a buffer of cap bytes filled in some way"""
        s = State()
        s, c = self.sg.build(I, s, cfg)[0]
        e, b, cp, bf = shape
        v = s.mem[c]
        old = get(v, bf)[1]
        al = s.g(('alloc', old))[1]
        s.gset(('alloc', old), None)
        s.gset('allocs', 1)
        cell = s.alloc(('seq', (('s', ('memory', 'old'), 0, cap),)))
        s.gset(('alloc', cell), (cap, al, 'live'))
        s.range('stored', 0, cap if isinstance(cap, int) else None)
        s.range('count', 0, None)
        E, B = L.atom('stored'), L.atom('count')
        s.assume(L.le(L.add(E, L.scale(B, 16)), cap))
        for p, x in ((e, E), (b, B), (cp, cap), (bf, ('ref', cell, ()))):
            v = put(v, p, x)
        s.mem[c] = v
        return s, c, E, B

    def step(self, cfg, shape, cap, lim, bound):
        """(proved, text)"""
        I = Interp(self.P, SpillDom(self.P, 3), overflow='report')
        I.max_rec = 60
        I.dom.spilled = 0
        s, c, E, B = self.general(I, cfg, shape, cap, lim)
        I.dom.stop = True
        s.range(('len', 'k0'), 0, lim)
        s.range(('len', 'v'), 0, lim)
        n = L.add(L.atom(('len', 'k0')), L.atom(('len', 'v')))
        s.assume(L.le(n, lim))
        res = I.run_body(s, self.sg.insert, [('ref', c, ()), ('snap', ('seq', (('s', 'k0', 0, L.atom(('len', 'k0'))),))),
                                             ('snap', ('seq', (('s', 'v', 0, L.atom(('len', 'v'))),)))])
        good = not I.undecided
        for s1, kd, x in res:
            if kd != 'ret':
                continue
            e, b, cp, bf = shape
            v = s1.mem[c]
            e1, b1, c1 = get(v, e), get(v, b), get(v, cp)
            good = good and s1.facts.prove(L.eq(e1, L.add(E, n))) is True and s1.facts.prove(L.le(e1, bound)) is True and \
                s1.facts.prove(L.le(L.add(e1, L.scale(b1, 16)), c1)) is True and isinstance(c1, int)
            yield s1, (c1 if isinstance(c1, int) else None), good
        yield None, I, good


def leaves(v, path=()):
    if isinstance(v, tuple) and v[0] in ('adt', 'tup'):
        for i, x in enumerate(v[-1]):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def get(v, path):
    for i in path:
        v = v[-1][i]
    return v


def put(v, path, x):
    if not path:
        return x
    fs = list(v[-1])
    fs[path[0]] = put(fs[path[0]], path[1:], x)
    return v[:-1] + (tuple(fs),)
