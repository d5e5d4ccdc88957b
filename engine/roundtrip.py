"""Whole small files read back through the public reader: the bytes come from the independent description of the
format or from the real writer; keys and values are opaque byte strings."""
from . import lin as L, grenad as G, wfile as W
from .core import *


def entries(s, n, kl=(10, 127), vl=(10, 127)):
    """n entries; kl, vl: a range, or a list of concrete lengths"""
    out = []
    for i in range(n):
        r = []
        for c, ln in (('k', kl), ('v', vl)):
            nm = '%s%d' % (c, i)
            if isinstance(ln, list):
                x = ln[i % len(ln)]
                s.range(('len', nm), x, x)
                r.append(norm_segs((('s', nm, 0, x),)))
            else:
                r.append(W.symkey(s, nm, ln[1], ln[0]))
        out.append(tuple(r))
    return out


def spec_file(s, ents, levels, interval, codec, cuts, version=2):
    """bytes of a file holding ents; cuts: {entry number: levels cut after it}"""
    m = W.Model(W.EMPTY, (W.EMPTY,) * (levels + 1), (), 0, 0, interval, codec, None, None)
    for i, (k, v) in enumerate(ents):
        m = m.insert(s, k, v, set(cuts.get(i, ())))
    if version == 2:
        return m.finish(s)
    out = m.finish(s)
    # the same blocks with a version-1 trailer: no levels byte, other magic
    assert levels == 0
    body = out[:len(out) - _trailer_segs(out)]
    t = out[len(body):]
    return norm_segs(body + tuple(x for i, x in enumerate(t) if i != len(t) - 5)[:-4] + W.le(4, 0x76324D4C))


def _trailer_segs(out):
    n = k = 0
    while n < 22:
        k += 1
        n += seg_len(out[-k])
    return k


class RDom(W.KeyDom):
    """k0 < k1 < ..; a key of length zero is the empty string"""

    def __init__(self, n, probe=None, **kw):
        r = {'k%d' % i: 10 * i for i in range(n)}
        if probe is not None:
            r['probe'] = probe
        super().__init__(r, **kw)
        self.n = n

    def rank(self, g):
        if not g:
            return 0
        if len(g) == 1 and g[0][0] == 's' and g[0][1] in self.ranks and g[0][2] == 0:
            return self.ranks[g[0][1]]
        return None


class Reading:
    def __init__(self, P):
        self.P = P
        self.new = G.fn(P, 'reader::Reader::new', True)
        self.into = G.fn(P, 'reader::Reader::into_cursor', True)
        self.q = {n: G.fn(P, 'reader::Reader::' + n, True) for n in ('len', 'compression_type', 'file_version')}
        self.ops = {n: G.fn(P, 'ReaderCursor::' + m, True) for n, m in (
            ('first', 'move_on_first'), ('last', 'move_on_last'), ('next', 'move_on_next'), ('prev', 'move_on_prev'),
            ('ge', 'move_on_key_greater_than_or_equal_to'), ('le', 'move_on_key_lower_than_or_equal_to'),
            ('eq', 'move_on_key_equal_to'))}

    def check(self, I, s, data, ents, codec, version, what, out, seeks=False):
        """runs the reader over data; out: list receiving (key, text); returns True when everything was decided"""
        und = sum(I.undecided.values())
        src = s.alloc(('obj', 'rd', data, 0))
        st = self.opened(I, s, src, what, out)
        done = bool(st)
        for s1, r in st:
            rc = s1.alloc(r)
            for n, want in (('len', len(ents)), ('compression_type', ('adt', G.variant_index(self.P, 'CompressionType', codec), ())),
                            ('file_version', ('adt', G.variant_index(self.P, 'FileVersion', 'FormatV%d' % version), ()))):
                for s2, kd, v in I.run_body(s1.copy(), self.q[n], [('ref', rc, ())]):
                    if isinstance(v, tuple) and v[0] == 'symenum':
                        v = I.sym_variant(s2, v)
                    if kd != 'ret' or v != want:
                        num = I.as_num(v) if kd == 'ret' and not isinstance(want, tuple) else None
                        if num is not None and s2.facts.prove(L.eq(num, want)) is True:
                            continue
                        if G.feasible(s2):
                            out.append(('reader-' + n, 'Reader::%s reports %s on %s' % (n, v if kd == 'ret' else 'a panic: ' + str(v), what)))
                            done = False
            done = self.scans(I, s1, r, ents, what, out, seeks) and done
        return done and und == sum(I.undecided.values())

    def opened(self, I, s, src, what, out):
        res = []
        for s1, kd, v in I.run_body(s, self.new, [('ref', src, ())]):
            if kd == 'panic' or v[1] != 0:
                if G.feasible(s1):
                    out.append(('open-fails', 'Reader::new %s on %s' % ('panics: ' + str(v) if kd == 'panic' else 'returns an error', what)))
                continue
            res.append((s1, v[2][0]))
        return res

    def scans(self, I, s, reader, ents, what, out, seeks):
        n = len(ents)
        fwd, bwd = list(range(n)), list(range(n - 1, -1, -1))
        seqs = [(('next',) * (n + 1), fwd + [None], 'forward scan'), (('prev',) * (n + 1), bwd + [None], 'backward scan'),
                (('first',) + ('next',) * n, (fwd or [None])[:1] + fwd[1:] + [None] * (n > 0), 'scan from the first entry'),
                (('last',) + ('prev',) * n, (bwd or [None])[:1] + bwd[1:] + [None] * (n > 0), 'scan from the last entry')]
        if seeks:
            for op in ('ge', 'le', 'eq'):
                for p in range(-5, 10 * n, 5):
                    below = [i for i in range(n) if 10 * i <= p]
                    above = [i for i in range(n) if 10 * i >= p]
                    w = {'ge': above[:1] or [None], 'le': below[-1:] or [None], 'eq': [p // 10] if p % 10 == 0 and p >= 0 else [None]}[op]
                    seqs.append(((op,), w, ('seek', p)))
        good = True
        for ops, want, name in seqs:
            good = self.walk(I, s.copy(), reader, ops, want, ents, name, what, out) and good
        return good

    def walk(self, I, s, reader, ops, want, ents, name, what, out):
        probe = None
        if isinstance(name, tuple):
            I.dom.ranks['probe'] = name[1]
            probe = W.symkey(s, 'probe', lo=1)
            name = 'seek (%s) %s' % (ops[0], 'at entry %d' % (name[1] // 10) if name[1] % 10 == 0 and name[1] >= 0 else
                                     'between entries %d and %d' % ((name[1] - 5) // 10, (name[1] + 5) // 10))
        st = []
        for s1, kd, v in I.run_body(s, self.into, [reader]):
            if kd == 'panic' or v[1] != 0:
                if G.feasible(s1):
                    out.append(('cursor-fails', 'into_cursor fails on %s' % what))
                return False
            st.append((s1, s1.alloc(v[2][0])))
        if not st:
            return False
        good = True
        for i, (op, w) in enumerate(zip(ops, want)):
            nxt = []
            for s1, c in st:
                args = [('ref', c, ())]
                if probe is not None:
                    args.append(('snap', ('seq', probe)))
                outs = I.run_body(s1, self.ops[op], args)
                if not outs:
                    good = False
                for s2, kd, v in outs:
                    r = self.compare(I, s2, kd, v, w, ents)
                    if r is True:
                        nxt.append((s2, c))
                    elif r is None:
                        good = False
                    else:
                        if G.feasible(s2):
                            out.append(('%s-wrong' % name.split(' (')[0].split(' ')[0], '%s of %s: step %d returns %s where %s is due%s' % (
                                name, what, i + 1, r, 'the end' if w is None else 'entry %d' % w,
                                ('; e.g. ' + G.show_facts(s2)) if G.show_facts(s2) else '')))
                        return False
            st = nxt
            if len(st) > 64:
                raise Undecided('too many cases')
        return good

    def compare(self, I, s, kd, v, w, ents):
        """True, None (unknown), or a description of the wrong result"""
        if kd == 'panic':
            return 'a panic (%s)' % (v,)
        v = G.variant(I, s, v)
        if v[1] != 0:
            return 'an error'
        o = G.variant(I, s, v[2][0])
        if o[1] == 0:
            return True if w is None else 'nothing'
        kp, vp = o[2][0][1]
        gk, gv = I.ptr_seq(s, kp), I.ptr_seq(s, vp)
        if w is None:
            return 'an entry with key %s' % G.show_segs(gk)
        for which, g, e in (('key', gk, ents[w][0]), ('value', gv, ents[w][1])):
            rs = G.matches(I, s.copy(), g, e)
            if any(m is None for _, m in rs):
                return None
            if not all(m for _, m in rs):
                return 'the %s %s' % (which, G.show_segs(g))
        return True


SHAPES = [
    # entries, levels, interval, cuts
    (0, 0, 8, {}), (0, 2, 1, {}), (1, 0, 8, {}), (1, 3, 1, {}), (4, 0, 2, {}), (3, 0, 1, {0: ['data'], 1: ['data']}),
    (5, 0, 2, {2: ['data']}), (5, 1, 1, {1: ['data'], 3: ['data']}), (5, 1, 8, {0: ['data'], 1: ['data'], 2: ['data']}),
    (4, 2, 2, {0: ['data', 2], 1: ['data'], 2: ['data', 2]}), (6, 2, 1, {0: ['data'], 1: ['data', 2], 2: ['data'], 3: ['data', 2], 4: ['data']}),
    (4, 3, 1, {0: ['data', 3, 2], 1: ['data', 3], 2: ['data', 3, 2]}),
    (4, 3, 8, {0: ['data'], 1: ['data', 3], 2: ['data', 3, 2]}),
]


def shape_name(n, levels, interval, cuts, codec):
    return 'a file of %d entries in %d data blocks, %d index levels, interval %d, codec %s' % (
        n, len(cuts) + (1 if n and not (n - 1) in cuts else 0), levels, interval, codec)


def written(S, I, s, ents, levels, codec, interval, bsize, level=None):
    """[(state, bytes)] the real writer produces for ents; failures are returned as (state, ('fail', text))"""
    out = []
    for s0, w, iv, bs in S.build(I, s, levels, codec, level, interval, bsize):
        c = s0.alloc(w)
        st = [s0]
        for i, (k, v) in enumerate(ents):
            nxt = []
            for s1 in st:
                for s2, kd, r in I.run_body(s1, S.insert, [('ref', c, ()), ('snap', ('seq', k)), ('snap', ('seq', v))]):
                    if kd == 'panic' or G.variant(I, s2, r)[1] != 0:
                        out.append((s2, ('fail', 'insert %d %s' % (i, 'panics: %s' % (r,) if kd == 'panic' else 'fails'))))
                    else:
                        nxt.append(s2)
            st = nxt
        for s1 in st:
            for s2, kd, r in I.run_body(s1, S.into_inner, [I.deref(s1, ('ref', c, ()))]):
                if kd == 'panic' or G.variant(I, s2, r)[1] != 0:
                    out.append((s2, ('fail', 'into_inner %s' % ('panics: %s' % (r,) if kd == 'panic' else 'fails'))))
                else:
                    out.append((s2, s2.g(('out', 'w'), ())))
    return out


# (entries, key lengths, value lengths, index levels, interval, block size)
WRITES = [
    (0, [10], [10], 0, 8, 1024), (0, [10], [10], 2, 1, 1024),
    (1, [0], [0], 0, 8, 1024), (1, [0], [3000], 2, 1, 1024), (2, [0, 1], [0, 0], 1, 1, 1024),
    (4, [0, 10, 127, 128], [0, 127, 128, 300], 0, 2, 8192),
    (5, [10], [2000], 0, 8, 1024), (5, [10], [10, 1000, 10, 2000, 5], 1, 2, 1024),
    (4, [1200], [10], 1, 8, 1024), (4, [1200], [10], 2, 1, 1024), (5, [1200], [10], 3, 8, 1024),
    (6, [600], [600], 2, 1, 1024), (3, [20000], [3000000], 1, 2, 1024), (6, [300], [10, 800], 3, 2, 1024),
    (9, [12], [200], 0, 1, 1024), (12, [12], [150], 1, 2, 1024), (10, [12], [10], 0, 3, 1024),
]
