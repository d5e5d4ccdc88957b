"""The writer side. A file under construction is described by an independent model of the format
(blocks under construction, bytes emitted so far, counters); BlockWriter and Writer are interpreted on families of
abstract values covering every reachable configuration of blocks and compared with the model.

Block under construction, model value: Blk(payload segs, offsets, counter, last key segs or None).
Family E: a fresh block. Family N: payload an opaque byte string of any length, last key an opaque key, table
[0, o1, ..] and any counter 1 <= c <= interval."""
from collections import namedtuple
from . import lin as L, grenad as G
from .core import *
from .iodom import IODom
from . import iodom

U32 = (1 << 32) - 1
U64 = (1 << 64) - 1
MAGIC2 = 0x6723D4C4
CODECS = ['None', 'SnappyPre05', 'Zlib', 'Lz4', 'Zstd', 'Snappy']
ENC = {'None': None, 'SnappyPre05': 'snappyraw', 'Zlib': 'zlib', 'Lz4': 'lz4', 'Zstd': 'zstd', 'Snappy': 'snappy'}

Blk = namedtuple('Blk', 'payload offsets counter last')
EMPTY = Blk((), (('e', 0),), 0, None)


class KeyDom(IODom):
    """opaque keys are ordered by the rank the scenario gives to their symbols"""

    def __init__(self, ranks=None, **kw):
        super().__init__(**kw)
        self.ranks = ranks or {}

    def rank(self, g):
        if len(g) == 1 and g[0][0] == 's' and g[0][1] in self.ranks and g[0][2] == 0 and \
                g[0][3] == L.atom(('len', g[0][1])):
            return self.ranks[g[0][1]]
        return None

    def cmp_bytes(self, I, s, a, b):
        ra, rb = self.rank(a), self.rank(b)
        if ra is None or rb is None:
            return None
        return (ra > rb) - (ra < rb)

    def eq_bytes(self, I, s, a, b):
        r = self.cmp_bytes(I, s, a, b)
        return None if r is None else r == 0


# ------------------------------------------------------------------ the format (independent of the code)
def be(n, v):
    if isinstance(v, int):
        return tuple(('e', x) for x in v.to_bytes(n, 'big'))
    return (('n', 'be', n, v),)


def le(n, v):
    if isinstance(v, int):
        return tuple(('e', x) for x in v.to_bytes(n, 'little'))
    return (('n', 'le', n, v),)


def leb(n):
    """LEB128 of a known length, or of a length below 128"""
    if not isinstance(n, int):
        return (('e', n),)
    out = ()
    while True:
        if n < 128:
            return out + (('e', n),)
        out += (('e', (n & 127) | 128),)
        n >>= 7


def spec_insert(s, b, I_, key, val):
    """b with the entry appended; key, val segs of lengths below 128; asks whether the interval is full"""
    off, c = b.offsets, b.counter
    if s.ask(L.eq(c, I_)):
        off = off + (('e', seq_len(b.payload)),)
        c = 0
    pay = norm_segs(b.payload + leb(seq_len(key)) + leb(seq_len(val)) + key + val)
    return Blk(pay, off, L.add(c, 1), key)


def table_len(b):
    return seq_len(b.offsets)


def spec_bytes(b):
    out = b.payload
    for x in b.offsets:
        if x[0] == 'e':
            out += be(8, x[1])
        else:
            out += (('frun', x[1], x[2], 8, (('n', 'be', 8, x[3]),)),)
    return norm_segs(out + be(4, table_len(b)))


def spec_size(b):
    return L.add(L.add(seq_len(b.payload), L.scale(table_len(b), 8)), 4)


def encoded(codec, lvl, segs):
    if ENC[codec] is None:
        return norm_segs(segs)
    return (iodom.enc_sym(ENC[codec], lvl, segs),)


def spec_block(codec, lvl, b):
    e = encoded(codec, lvl, spec_bytes(b))
    return norm_segs(be(8, seq_len(e)) + e)


def spec_trailer(root, codec, count, levels, magic=MAGIC2, version=2):
    t = le(8, root) + (('e', CODECS.index(codec)),) + le(8, count)
    if version == 2:
        t += (('e', levels),)
    return t + le(4, magic)


# ------------------------------------------------------------------ locating the code's representation
class BW:
    """the representation of a block under construction"""

    def __init__(self, P):
        self.P = P
        self.insert = G.need_fn(P, 'BlockWriter::insert')
        self.finish = G.need_fn(P, 'BlockWriter::finish')
        self.asref = [b for b in P.roots if b['np'].endswith('BlockBuffer as std::convert::AsRef>::as_ref')]
        self.f = None
        fs = G.fields(P, 'block_writer::BlockWriter')
        if fs and len(fs) == 5:
            kinds = {}
            for i, (n, t) in enumerate(fs):
                k = {'std::vec::Vec<u8>': 'buf', 'std::option::Option<std::vec::Vec<u8>>': 'last', 'std::vec::Vec<u64>': 'table',
                     'usize': 'counter'}.get(t, 'interval' if 'NonZero' in t else None)
                kinds.setdefault(k, []).append(i)
            if set(kinds) == {'buf', 'last', 'table', 'counter', 'interval'}:
                self.f = {k: v[0] for k, v in kinds.items()}

    def value(self, b, interval, empty):
        """the code's value for model block b, patterned on the fresh value `empty`"""
        if self.f is None:
            raise Undecided('representation of BlockWriter')
        v = list(empty[2])
        v[self.f['buf']] = ('seq', b.payload)
        v[self.f['table']] = ('seq', b.offsets)
        v[self.f['counter']] = b.counter
        v[self.f['last']] = NONE if b.last is None else some(('seq', b.last))
        return ('adt', empty[1], tuple(v))

    def same(self, I, s, v, b):
        """does the code's value equal model block b? True / False (asks)"""
        if self.f is None:
            return None
        f = v[2]
        t = f[self.f['table']]
        if t[0] != 'seq' or f[self.f['buf']][0] != 'seq':
            return None
        if not G.match(I, s, f[self.f['buf']][1], b.payload) or not G.match(I, s, t[1], b.offsets):
            return False
        l = f[self.f['last']]
        if l[0] != 'adt' or (l[1] == 0) != (b.last is None):
            return False
        if b.last is not None and not G.match(I, s, l[2][0][1], b.last):
            return False
        c = I.as_num(f[self.f['counter']])
        return c is not None and s.ask(L.eq(c, b.counter))


def fam(s, name, interval, table=1):
    """a non-empty block under construction of any size; table: number of offsets or 'any'"""
    d, k = 'payload of %s' % name, 'last key of %s' % name
    s.range(('len', k), 0, 127)
    off = (('e', 0),)
    if table == 'any':
        n = ('more offsets', name)
        s.range(n, 1, 1 << 28)
        s.range(('offset', name), 0, 1 << 40)
        off += (('run', ('table', name), L.atom(n), L.atom(('offset', name))),)
        s.range(('len', d), 2, 1 << 40)
        s.assume(L.le(L.add(L.scale(L.atom(n), 2), 2), L.atom(('len', d))))
    else:
        s.range(('len', d), 2 * table, 1 << 40)
        for i in range(1, table):
            a = ('offset', name, i)
            s.range(a, 2 * i, 1 << 40)
            s.assume(L.lt(L.atom(a), L.atom(('len', d))))
            off += (('e', L.atom(a)),)
    c = ('counter', name)
    s.range(c, 1, U64)
    s.assume(L.le(L.atom(c), interval))
    return Blk((('s', d, 0, L.atom(('len', d))),), off, L.atom(c), (('s', k, 0, L.atom(('len', k))),))


def symkey(s, name, hi=127, lo=0):
    s.range(('len', name), lo, hi)
    return (('s', name, 0, L.atom(('len', name))),)


def unroll(v):
    """repeated structured elements written out"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'seq':
        g = []
        for x in v[1]:
            if x[0] == 'rep' and isinstance(x[2], int) and isinstance(x[1], tuple) and x[1][0] == 'adt' and x[2] <= 300:
                g += [('e', x[1])] * x[2]
            else:
                g.append(x)
        return ('seq', tuple(g))
    if v and v[0] == 'adt':
        return ('adt', v[1], tuple(unroll(x) for x in v[2]))
    return v


# ------------------------------------------------------------------ a configured writer
class Setup:
    def __init__(self, P, features='all'):
        self.P = P
        self.bw = BW(P)
        self.b = {n: G.need_fn(P, 'WriterBuilder::' + n) for n in (
            'new', 'block_size', 'index_levels', 'index_key_interval', 'compression_type', 'compression_level', 'build')}
        self.insert = G.need_fn(P, 'writer::Writer::insert')
        self.into_inner = G.need_fn(P, 'writer::Writer::into_inner')
        self.ctype = {n: G.variant_index(P, 'CompressionType', n) for n in CODECS}

    def one(self, I, s, body, args, what):
        r, p = G.oks(I.run_body(s, body, args))
        if not r or p:
            raise Undecided(what)
        return r

    def nonzero(self, v):
        return ('adt', 0, (('adt', 0, (v,)),))

    def build(self, I, s, levels, codec='None', level=None, interval=True, bsize=None, order=None):
        """[(state, writer value, interval, block size)]; interval True: symbolic, int: concrete, None: default"""
        out = []
        s, v = self.one(I, s, self.b['new'], [], 'WriterBuilder::new')[0]
        c = s.alloc(v)
        iv = 8
        if interval is True:
            s.range('interval', 1, U64)
            iv = L.atom('interval')
        elif interval is not None:
            iv = interval
        bs = 8192
        steps = []
        if bsize is True:
            s.range('block size', 0, U64)
            bs = L.atom('block size')
        elif bsize is not None:
            bs = bsize
        if bsize is not None:
            steps.append(('block_size', bs))
        if interval is not None:
            steps.append(('index_key_interval', self.nonzero(iv)))
        steps.append(('index_levels', levels))
        steps.append(('compression_type', ('adt', self.ctype[codec], ())))
        if level is not None:
            if level is True:
                s.range('level', 0, U32)
                level = L.atom('level')
            steps.append(('compression_level', level))
        st = [s]
        for n, a in steps:
            st = [s2 for s1 in st for s2, _ in self.one(I, s1, self.b[n], [('ref', c, ()), a], n)]
        for s1 in st:
            for s2, w in self.one(I, s1, self.b['build'], [('ref', c, ()), ('obj', 'sink', 'w')], 'build'):
                out.append((s2, unroll(w), iv, bs))
        return out

    # blocks inside a writer value: paths of sub-values equal to a fresh block
    def find(self, P, w, levels):
        """(path of the data block, [paths of the index blocks in vector order], fresh value)"""
        T = P.T
        hits = []

        def walk(t, v, path):
            ty = T[t]
            if ty.get('k') == 'adt' and ty['path'].endswith('::BlockWriter'):
                hits.append((path, v))
            elif ty.get('k') == 'adt' and ty['path'] == 'std::vec::Vec' and v[0] == 'seq':
                for i, sg in enumerate(v[1]):
                    if sg[0] == 'e':
                        walk(ty['args'][0] if ty.get('args') else None, sg[1], path + (('e', i),))
            elif ty.get('k') == 'adt' and not ty.get('enum') and ty.get('variants') and v[0] == 'adt':
                for i, (n, x) in enumerate(ty['variants'][0]['fields']):
                    if i < len(v[2]) and isinstance(v[2][i], tuple):
                        walk(x, v[2][i], path + (('f', i),))
        for t, ty in enumerate(T):
            if ty.get('k') == 'adt' and ty['path'].endswith('writer::Writer') and ty.get('variants'):
                walk(t, w, ())
                break
        direct = [h for h in hits if not any(p[0] == 'e' for p in h[0])]
        vec = [h for h in hits if any(p[0] == 'e' for p in h[0])]
        if len(direct) != 1 or len(vec) != levels + 1:
            raise Undecided('blocks of the Writer: %d data, %d index' % (len(direct), len(vec)))
        return direct[0][0], [h[0] for h in vec], direct[0][1]

    def replace(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == 'f':
            fs = list(v[2])
            fs[p[1]] = self.replace(fs[p[1]], path[1:], x)
            return ('adt', v[1], tuple(fs))
        g = list(v[1])
        g[p[1]] = ('e', self.replace(g[p[1]][1], path[1:], x))
        return ('seq', tuple(g))

    def get(self, v, path):
        for p in path:
            v = v[2][p[1]] if p[0] == 'f' else v[1][p[1]][1]
        return v


def int_fields(P, w, levels):
    """(path of the emitted-bytes counter, path of the entry counter) by type, None when not unique"""
    T = P.T
    near, direct = [], []

    def holds_sink(v):
        return v[0] == 'adt' and any(isinstance(x, tuple) and x[:2] == ('obj', 'sink') for x in v[2])

    def walk(t, v, path):
        ty = T[t]
        if ty.get('k') == 'adt' and ty.get('variants') and not ty.get('enum') and isinstance(v, tuple) and v[0] == 'adt':
            for i, (n, x) in enumerate(ty['variants'][0]['fields']):
                if i >= len(v[2]):
                    continue
                if T[x]['s'] == 'u64':
                    (near if holds_sink(v) else direct if len(path) == 0 else []).append(path + (('f', i),))
                else:
                    if not T[x].get('path', '').endswith('::BlockWriter'):
                        walk(x, v[2][i], path + (('f', i),))
    for t, ty in enumerate(T):
        if ty.get('k') == 'adt' and ty['path'].endswith('writer::Writer') and ty.get('variants'):
            walk(t, w, ())
            break
    return (near[0] if len(near) == 1 else None), (direct[0] if len(direct) == 1 else None)


class Model(namedtuple('Model', 'data idx out pos count interval codec lvl bsize')):
    """a file under construction: data block, index blocks (root first), bytes emitted, their number, entries"""

    def emit(self, b):
        g = spec_block(self.codec, self.lvl, b)
        return self._replace(out=norm_segs(self.out + g), pos=L.add(self.pos, seq_len(g)))

    def put(self, s, k, key, val):
        """entry appended to index block k"""
        idx = list(self.idx)
        idx[k] = spec_insert(s, idx[k], self.interval, key, val)
        return self._replace(idx=tuple(idx))

    def cut(self, s, k):
        """block of level k (None: data) emitted and recorded in its parent"""
        b = self.data if k is None else self.idx[k]
        parent = len(self.idx) - 1 if k is None else k - 1
        m = self
        if parent >= 0:
            m = m.put(s, parent, b.last, be(8, m.pos))
        m = m.emit(b)
        if k is None:
            return m._replace(data=EMPTY)
        idx = list(m.idx)
        idx[k] = EMPTY
        return m._replace(idx=tuple(idx))

    def insert(self, s, key, val, cuts):
        """cuts: set of levels cut after the insert ('data' or index number)"""
        m = self._replace(data=spec_insert(s, self.data, self.interval, key, val), count=L.add(self.count, 1))
        if 'data' in cuts:
            m = m.cut(s, None)
        for k in range(len(m.idx) - 1, 0, -1):
            if k in cuts:
                m = m.cut(s, k)
        return m

    def finish(self, s):
        m = self
        if m.data.last is not None:
            m = m.cut(s, None)
        root = m.pos
        for k in range(len(m.idx) - 1, -1, -1):
            if m.idx[k].last is not None or k == 0:
                root = m.pos
                m = m.cut(s, k)
        t = spec_trailer(root, m.codec, m.count, len(m.idx) - 1)
        return norm_segs(m.out + t)


def pre_states(S, I, levels, kinds, codec='None', lvl=None, bsize='ok', interval=True, table=1, under=True):
    """kinds: 'E'/'N' for data then index blocks root first. [(state, writer cell ref, Model, paths)]"""
    s = State()
    if bsize == 'ok':
        s.range('block size', 1024, U64)
    out = []
    built = []
    for s, w, iv, bs in S.build(I, s, levels, codec, lvl, interval, True if bsize in ('ok', 'any') else bsize):
        if bsize == 'any':
            # block sizes below 1024 count as 1024
            built += [(s2, w, iv, 1024 if small else bs) for s2, small in I.branch(s, lambda x: x.ask(L.lt(bs, 1024)))]
        else:
            built.append((s, w, iv, bs))
    for s, w, iv, bs in built:
        dpath, ipaths, fresh = S.find(S.P, w, levels)
        blks = []
        for nm, kd in zip(['data'] + ['index %d' % k for k in range(levels + 1)], kinds):
            blks.append(EMPTY if kd == 'E' else fam(s, nm, iv, table))
        for path, b, kd in zip([dpath] + ipaths, blks, kinds):
            if kd == 'N':
                w = S.replace(w, path, S.bw.value(b, iv, fresh))
        pp, cp = int_fields(S.P, w, levels)
        pos, cnt, prev = 0, 0, ()
        if 'N' in kinds[1:] and pp is not None:
            s.range(('len', 'earlier blocks'), 1, 1 << 40)
            pos = L.atom(('len', 'earlier blocks'))
            prev = (('s', 'earlier blocks', 0, pos),)
            w = S.replace(w, pp, pos)
            s.gset(('out', 'w'), prev)
        if 'N' in kinds and cp is not None:
            s.range('entries so far', 1, 1 << 40)
            cnt = L.atom('entries so far')
            w = S.replace(w, cp, cnt)
        c = s.alloc(w)
        if under and bs is not None:
            for j, (b, kd) in enumerate(zip(blks, kinds)):
                if kd == 'N' and (j == 0 or j > 2):
                    s.assume(L.lt(spec_size(b), bs))
        m = Model(blks[0], tuple(blks[1:]), prev, pos, cnt, iv, codec, lvl, bs)
        out.append((s, ('ref', c, ()), m, (dpath, ipaths, fresh)))
    return out


def ranks(levels):
    r = {'last key of index %d' % k: 10 * (k + 1) for k in range(levels + 1)}
    r['last key of data'] = 10 * (levels + 2)
    r['key'] = 10 * (levels + 3)
    r['later key'] = 10 * (levels + 4)
    return r


def all_kinds(levels):
    """reachable configurations: only the root may never be emptied before the end; it stays empty when it is not
    the lowest level"""
    import itertools
    for d in 'EN':
        if levels == 0:
            for r in 'EN':
                yield d + r
        else:
            for ks in itertools.product('EN', repeat=levels):
                yield d + 'E' + ''.join(ks)


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        if v and v[0] == 'lin':
            r = v[1]
            for at, k in v[2]:
                r = L.add(r, L.scale(L.atom(subst(at, a, b)), k))
            return r
        return tuple(subst(x, a, b) for x in v)
    return v


def align(I, s, obs, exp, lvl_free=True):
    """the observed bytes rewritten so that encoders fed equal data have equal names; None: a block encoded with
    another codec or other data"""
    eo = [g for g in obs if g[0] == 's' and isinstance(g[1], tuple) and g[1][0] == 'enc']
    ee = [g for g in exp if g[0] == 's' and isinstance(g[1], tuple) and g[1][0] == 'enc']
    if len(eo) != len(ee):
        return None
    for i in range(len(eo)):
        a, b = eo[i][1], ee[i][1]
        if a == b:
            continue
        if a[1] != b[1] or not G.match(I, s, a[3], b[3]):
            return None
        obs = subst(obs, a, b)
        eo = [subst(x, a, b) for x in eo]
    return obs


def same_bytes(I, s, obs, exp):
    obs, exp = norm_segs(obs), norm_segs(exp)
    o = align(I, s, obs, exp)
    if o is None:
        return False
    return G.match(I, s, o, exp)


class Found:
    """what the analysis of one configuration produced"""

    def __init__(self, I):
        self.I = I
        self.bad = []          # (kind, key, text); kind: layout / cut / order / panic / error
        self.und = []
        self.checked = 0

    def add(self, kind, key, text):
        self.bad.append((kind, key, text))


def describe(levels, kinds, codec, extra=''):
    if levels > 8:
        return '%d index levels, %d blocks pending, codec %s' % (levels, kinds.count('N'), codec)
    return '%d index levels, %s, codec %s%s' % (
        levels, ', '.join('%s %s' % (n, 'empty' if k == 'E' else 'non-empty')
                          for n, k in zip(['data block'] + ['index block %d' % i for i in range(levels + 1)], kinds)), codec, extra)


VALUES = (None, 5000)


def value_segs(s, vl):
    if vl is None:
        return symkey(s, 'value')
    s.range(('len', 'value'), vl, vl)
    return (('s', 'value', 0, vl),)


def cutsets(levels):
    """candidate sets of blocks emitted after one insert"""
    import itertools
    lv = ['data'] + list(range(levels, 0, -1))
    for n in range(len(lv) + 1):
        for c in itertools.combinations(lv, n):
            yield set(c)


def insert_step(S, F, levels, kinds, codec='None', lvl=None, vl=None, table=1, interval=True, bsize='ok'):
    """Writer::insert of an ascending key on every configuration; each outcome must be the model with some set of blocks
    cut; then the cut rule"""
    I = F.I
    name = describe(levels, kinds, codec)
    for s, w, m, paths in pre_states(S, I, levels, kinds, codec, lvl, bsize, interval=interval, table=table):
        key = symkey(s, 'key', lo=1 if 'N' in kinds else 0)
        val = value_segs(s, vl)
        for s1, kd, r in I.run_body(s.copy(), S.insert, [w, ('snap', ('seq', key)), ('snap', ('seq', val))]):
            if kd == 'panic':
                if G.feasible(s1):
                    F.add('panic', 'insert-panics', 'Writer::insert panics on an ascending key (%s): %s; e.g. %s' % (name, r, G.show_facts(s1)))
                continue
            r = G.variant(I, s1, r)
            if r[1] != 0:
                F.add('error', 'insert-fails', 'Writer::insert returns an error although nothing failed (%s)' % name)
                continue
            insert_outcome(S, F, s1, w, m, paths, key, val, levels, name)


def insert_outcome(S, F, s1, w, m, paths, key, val, levels, name):
    I = F.I
    dpath, ipaths, fresh = paths
    wv = I.deref(s1, w)
    F.checked += 1
    obs = s1.g(('out', 'w'), ())
    try:
        cuts = set()
        if S.get(wv, dpath) == fresh:
            cuts.add('data')
        for k, p in enumerate(ipaths):
            # a lower level block that received an entry and is fresh again was cut
            if k >= 1 and S.get(wv, p) == fresh and (m.idx[k].last is not None or 'data' in cuts and k == len(ipaths) - 1):
                cuts.add(k)
    except (KeyError, IndexError, TypeError):
        cuts = None
    res = []
    if cuts is not None:
        def f(x):
            e = m.insert(x, key, val, cuts)
            if not same_bytes(I, x, obs, e.out):
                return None
            for p, b in zip([dpath] + ipaths, (e.data,) + e.idx):
                if S.bw.same(I, x, S.get(wv, p), b) is not True:
                    return None
            return e
        res = I.branch(s1.copy(), f)
    for s2, e in res or [(s1.copy(), None)]:
        if e is not None:
            cut_rule(S, F, s2, m, key, val, cuts, name)
            continue
        # the representation differs: compare what finishing now would emit
        behaviour(S, F, s2, w, m, key, val, levels, name)


def behaviour(S, F, s, w, m, key, val, levels, name):
    I = F.I
    n0 = sum(I.undecided.values())
    outs = I.run_body(s.copy(), S.into_inner, [I.deref(s, w)])
    if sum(I.undecided.values()) != n0 or not outs:
        F.und.append('finish after insert not decided (%s)' % name)
        return
    now = s.g(('out', 'w'), ())
    for s1, kd, r in outs:
        if kd == 'panic':
            if G.feasible(s1):
                F.add('panic', 'finish-panics', 'finishing after an insert panics (%s): %s; e.g. %s' % (name, r, G.show_facts(s1)))
            continue
        obs = s1.g(('out', 'w'), ())
        left = [(s1, ())]
        good = None
        for cuts in cutsets(levels):
            nxt = []
            for s2, _ in left:
                for s3, e in I.branch(s2.copy(), lambda x: both(I, x, now, obs, m.insert(x, key, val, cuts))):
                    if e:
                        cut_rule(S, F, s3, m, key, val, cuts, name)
                    else:
                        nxt.append((s3, ()))
            left = nxt
        for s2, _ in left:
            if G.feasible(s2):
                F.add('layout', 'insert-layout', 'after Writer::insert the file is not the one the format prescribes (%s): %s; e.g. %s' % (
                    name, diff(I, s2, m, key, val, obs), G.show_facts(s2)))
            else:
                F.und.append('layout mismatch without a witness (%s)' % name)


def both(I, s, now, final, e):
    return same_bytes(I, s, now, e.out) and same_bytes(I, s, final, e.finish(s))


def diff(I, s, m, key, val, obs):
    best = None
    for cuts in cutsets(len(m.idx) - 1):
        for s2, e in I.branch(s.copy(), lambda x: m.insert(x, key, val, cuts).finish(x)):
            d = first_diff(I, s2, obs, e)
            if d is not None and (best is None or d[0] > best[0]):
                best = d
    return best[1] if best else '?'


def first_diff(I, s, obs, exp):
    obs, exp = norm_segs(obs), norm_segs(exp)
    obs = align(I, s.copy(), obs, exp) or obs
    n = 0
    for a, b in zip(obs, exp):
        if a != b:
            return n, 'emitted %s where %s is expected (segment %d)' % (G.show_segs((a,)), G.show_segs((b,)), n)
        n += 1
    if len(obs) != len(exp):
        r = (obs if len(obs) > len(exp) else exp)[n:]
        return n, '%s %s' % ('extra' if len(obs) > len(exp) else 'missing', G.show_segs(r[:3]))
    return None


def cut_rule(S, F, s, m, key, val, cuts, name):
    """C15: cut exactly when the block's size reaches the block size (data, and index blocks two or more below the root)"""
    I = F.I
    if m.bsize is None:
        return
    levels = len(m.idx) - 1
    e = m._replace(data=spec_insert_known(I, s, m, key, val))
    for who in ['data'] + list(range(levels, 1, -1)):
        if who == 'data':
            b = e.data
        else:
            # the block as it stood when the level was considered
            sub = set(c for c in cuts if c == 'data' or c > who)
            if not ('data' in cuts if who == levels else who + 1 in cuts):
                continue
            b = None
        def f(x):
            bb = b
            if bb is None:
                bb = m.insert(x, key, val, sub).idx[who]
            return x.ask(L.le(m.bsize, spec_size(bb)))
        for s2, full in I.branch(s.copy(), f):
            if full != (who in cuts) and not G.feasible(s2):
                F.und.append('no concrete sizes found for a %s block whose size and emission disagree (%s)' % (
                    'data' if who == 'data' else 'index', name))
            elif full != (who in cuts):
                F.add('cut', 'cut-%s' % ('data' if who == 'data' else 'index'), '%s block %s (%s); e.g. %s' % (
                    'data' if who == 'data' else 'index', 'is not emitted although its size reached the block size' if full
                    else 'is emitted below the block size', name, G.show_facts(s2)))


def spec_insert_known(I, s, m, key, val):
    r = I.branch(s.copy(), lambda x: spec_insert(x, m.data, m.interval, key, val))
    if len(r) != 1:
        raise Undecided('interval not settled')
    return r[0][1]


def finish_step(S, F, levels, kinds, codec='None', lvl=None, table=1, interval=True):
    """Writer::into_inner on every configuration emits the rest of the file"""
    I = F.I
    name = describe(levels, kinds, codec)
    for s, w, m, paths in pre_states(S, I, levels, kinds, codec, lvl, interval=interval, table=table):
        n0 = sum(I.undecided.values())
        outs = I.run_body(s.copy(), S.into_inner, [I.deref(s, w)])
        if not outs or sum(I.undecided.values()) != n0:
            F.und.append('finish not decided (%s)' % name)
        for s1, kd, r in outs:
            F.checked += 1
            if kd == 'panic':
                if G.feasible(s1):
                    F.add('panic', 'finish-panics', 'Writer::into_inner panics (%s): %s; e.g. %s' % (name, r, G.show_facts(s1)))
                continue
            r = G.variant(I, s1, r)
            if r[1] != 0:
                F.add('error', 'finish-fails', 'Writer::into_inner returns an error although nothing failed (%s)' % name)
                continue
            obs = s1.g(('out', 'w'), ())
            for s2, e in I.branch(s1.copy(), lambda x: (lambda exp: (same_bytes(I, x, obs, exp), exp))(m.finish(x))):
                if e[0]:
                    continue
                if G.feasible(s2):
                    d = first_diff(I, s2, obs, e[1])
                    F.add('layout', 'finish-layout', 'Writer::into_inner does not emit the file the format prescribes (%s): %s; e.g. %s' % (
                        name, d[1] if d else '?', G.show_facts(s2)))
                else:
                    F.und.append('layout mismatch without a witness (%s)' % name)


# ------------------------------------------------------------------ C18
def adjacent(segs, kprev, knew):
    """the entry of key knew follows a block content that ends with the entry of key kprev (payload symbol)"""
    segs = norm_segs(segs)
    for i, g in enumerate(segs):
        if g[0] == 's' and g[1] == kprev:
            j = i + 1
            n = 0
            while j < len(segs) and segs[j][0] == 'e' and n < 8:
                j += 1
                n += 1
            if 1 < n <= 8 and j < len(segs) and segs[j][0] == 's' and segs[j][1] == knew:
                return True
    return False


def all_seqs(v, out):
    if isinstance(v, tuple):
        if v and v[0] == 'seq':
            out.append(v[1])
        for x in v:
            all_seqs(x, out)


def stored_unsorted(I, s, v, pairs):
    """a pair (previous payload symbol, new key symbol) stored next to each other in the value or the output"""
    seqs = [s.g(('out', 'w'), ())]
    if v is not None:
        all_seqs(v, seqs)
    for g in seqs:
        gs = [g]
        for x in g:
            if x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'enc':
                gs.append(x[1][3])
        for h in gs:
            for a, b in pairs:
                if adjacent(h, a, b):
                    return a, b
    return None


def order_insert(S, F, levels, kinds, rank, vl):
    """an insert whose key is not above a key recorded before; rank: of the new key"""
    I = F.I
    name = describe(levels, kinds, 'None')
    rk = I.dom.ranks
    pairs = [('payload of %s' % b, 'key') for b in ['data'] + ['index %d' % k for k in range(levels + 1)]
             if rk['last key of ' + b] >= rank]
    for s, w, m, paths in pre_states(S, I, levels, kinds):
        key = symkey(s, 'key', lo=1)
        val = value_segs(s, vl)
        for s1, kd, r in I.run_body(s.copy(), S.insert, [w, ('snap', ('seq', key)), ('snap', ('seq', val))]):
            F.checked += 1
            if kd == 'panic':
                continue
            bad = stored_unsorted(I, s1, I.deref(s1, w), pairs)
            if bad and G.feasible(s1):
                F.add('order', 'insert-order', 'Writer::insert stores a key that is not above the last key of its block (%s of %s): %s' % (
                    bad[1], bad[0], name))
                return


def order_finish(S, F, levels, kinds, over):
    """a pending block whose last key is not above the last key of its parent; over: the child ('data' or index)"""
    I = F.I
    name = describe(levels, kinds, 'None')
    child = 'data' if over == 'data' else 'index %d' % over
    parent = 'index %d' % (levels if over == 'data' else over - 1)
    pairs = [('payload of ' + parent, 'last key of ' + child)]
    for s, w, m, paths in pre_states(S, I, levels, kinds):
        for s1, kd, r in I.run_body(s.copy(), S.into_inner, [I.deref(s, w)]):
            F.checked += 1
            if kd == 'panic':
                continue
            bad = stored_unsorted(I, s1, None, pairs)
            if bad and G.feasible(s1):
                F.add('order', 'finish-order', 'finishing records a block whose last key is not above the last key of its index block (%s into %s): %s' % (
                    child, parent, name))
                return
