"""Opening a file: Reader::new over an arbitrary byte string seen as [prefix][tail bytes]."""
from . import lin as L, grenad as G
from .core import *
from .iodom import IODom
from .models import dec_int

MAGIC = {1: 0x76324D4C, 2: 0x6723D4C4}
SIZE = {1: 21, 2: 22}
CODECS = ['None', 'SnappyPre05', 'Zlib', 'Lz4', 'Zstd', 'Snappy']


class OpenDom(IODom):
    def __init__(self):
        super().__init__()
        self.reads = []

    def rd_some(self, I, s, v, n):
        p, o = self.find_reader(I, s, v)
        if o[1] == 'rd':
            self.reads.append((o[3], n))
        return super().rd_some(I, s, v, n)


def tail_layout(ver):
    """offsets of (index offset, codec, count, levels | None, magic) in the trailer"""
    return (0, 8, 9, 17 if ver == 2 else None, 18 if ver == 2 else 17)


def scenario(n, magic, codec):
    """(segments, description, expected version or None): n bytes of tail (None: any longer file)
    magic: 1 / 2 / 'other' / int ; codec 0..5 or 'bad' (symbolic 6..255) or None (unconstrained)"""
    k = 22 if n is None else n
    b = [('e', L.atom(('byte', i))) for i in range(k)]
    m = MAGIC.get(magic, magic)
    if isinstance(m, int):
        for i in range(min(4, k)):
            # little endian: last byte is the most significant
            b[k - 1 - i] = ('e', (m >> (8 * (3 - i))) & 255)
    ver = magic if magic in (1, 2) else None
    pos = None
    if ver is not None and k >= SIZE[ver] and codec is not None:
        pos = k - SIZE[ver] + 8
        b[pos] = ('e', codec) if isinstance(codec, int) else b[pos]
    segs = tuple(b)
    if n is None:
        segs = (('s', 'prefix', 0, L.atom(('len', 'prefix'))),) + segs
    exp = ver if ver is not None and k >= SIZE[ver] and isinstance(codec, int) and codec < 6 else None
    return segs, exp, pos


def run(P, rep, new, n, magic, codec, overflow='report'):
    """outcomes of Reader::new: (I, dom, [(state, kind, value)], segs, expected version)"""
    segs, exp, pos = scenario(n, magic, codec)
    dom = OpenDom()
    I = Interp(P, dom, overflow=overflow)
    s = State()
    for sg in segs:
        if sg[0] == 'e' and not isinstance(sg[1], int):
            s.assume(L.le(0, sg[1]))
            s.assume(L.le(sg[1], 255))
    if n is None:
        s.assume(L.le(0, L.atom(('len', 'prefix'))))
    if codec == 'bad' and pos is not None:
        s.assume(L.le(6, L.atom(("byte", pos))))
    if magic == 'other' and len(segs) >= 4:
        g = tuple(segs[-4:])
        for order in ('le', 'be'):
            at = dec_int(I, s, g, order, 4)
            for m in MAGIC.values():
                mm = m if order == 'le' else int.from_bytes(m.to_bytes(4, 'little'), 'big')
                s.assume(L.neg(L.eq(at, mm)))
    src = s.alloc(('obj', 'rd', segs, 0))
    outs = I.run_body(s, new, [('ref', src, ())])
    return I, dom, outs, segs, exp


def impossible(s, segs):
    """a path of the 'other' class on which the four tail bytes were pinned to a known magic"""
    vals = []
    for sg in segs[-4:]:
        v = sg[1] if isinstance(sg[1], int) else s.facts.value(sg[1])
        vals.append(v)
    for m in MAGIC.values():
        if vals == list(m.to_bytes(4, 'little')):
            return True
    return False


def expected_fields(I, s, segs, ver):
    t = segs[-SIZE[ver]:]
    lo = tail_layout(ver)
    r = {'offset': dec_int(I, s, t[lo[0]:lo[0] + 8], 'le', 8), 'count': dec_int(I, s, t[lo[2]:lo[2] + 8], 'le', 8)}
    r['levels'] = t[lo[3]][1] if lo[3] is not None else 0
    r['codec'] = t[lo[1]][1]
    return r


def check_fields(P, I, s, v, segs, ver):
    """None, or the description of a wrong field of the opened Reader"""
    fs = G.fields(P, 'reader::Reader')
    md = None
    for i, (n, t) in enumerate(fs or []):
        if t.endswith('Metadata'):
            md = v[2][i]
    mf = G.fields(P, 'metadata::Metadata')
    if md is None or mf is None:
        raise Undecided('metadata value')
    exp = expected_fields(I, s, segs, ver)
    for i, (n, t) in enumerate(mf):
        x = md[2][i]
        if 'FileVersion' in t:
            want = G.variant_index(P, 'FileVersion', 'FormatV%d' % ver)
            x = G.variant(I, s, x)
            if x[1] != want:
                return 'file version'
            continue
        if 'CompressionType' in t:
            x = G.variant(I, s, x)
            if x[1] != G.variant_index(P, 'CompressionType', CODECS[exp['codec']]):
                return 'codec of id %d' % exp['codec']
            continue
        w = exp['offset'] if 'offset' in n else exp['levels'] if 'level' in n else exp['count'] if 'count' in n else None
        if w is None:
            continue
        nx = I.as_num(x)
        if nx is None:
            raise Undecided('metadata field value')
        d = s.facts.prove(L.eq(nx, w))
        if d is not True:
            return n
    return None
