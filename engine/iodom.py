"""Abstract I/O components: sources, sinks, codecs. Values:
  ('obj','rd', segs, pos)         a readable and seekable source (lives in a memory cell)
  ('obj','take', inner, limit)    Read::take
  ('obj','dec', codec, inner)     a streaming decoder
  ('obj','enc', codec, level, segs)  a streaming encoder over a Vec
  ('obj','sink', name)            the user's sink; bytes accepted so far are in ghost ('out', name)
"""
from . import lin as L
from .core import (Dom, Undecided, Panic, Fork, UNIT, NONE, some, ok, err, norm_segs, seq_len, seg_len)
from .models import dec_int, need, setseq, vderef, inner_ptr, at

U64MAX = (1 << 64) - 1


def ioerr(kind, tok=''):
    return ('obj', 'ioerr', kind, tok)


CODECS = ('zlib', 'snappyraw', 'snappy', 'lz4', 'zstd')


class IODom(Dom):
    """partial: sinks may accept part of a buffer and report interruptions
       faults: every component call may fail"""

    def __init__(self, partial=False, faults=False):
        self.partial = partial
        self.faults = faults

    # -------------------------------------------------- faults
    def may_fail(self, I, s, what, tag=''):
        """[(state, None | error value)]: at most one injected fault per run"""
        if not self.faults or s.g('fault') is not None:
            return [(s, None)]
        s2 = s.copy()
        tok = (what,) + ((tag,) if tag else ())
        s2.gset('fault', tok)
        s2.note('%s fails%s' % (what, at(I)))
        return [(s, None), (s2, ioerr('injected', tok))]

    # -------------------------------------------------- readers
    def find_reader(self, I, s, v):
        """('ptr', p, obj) for an in-memory reader behind v"""
        p = None
        for _ in range(8):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                p = v
                v = I.deref(s, v)
            elif isinstance(v, tuple) and v[0] == 'obj' and v[1] in ('rd', 'take', 'dec'):
                return p, v
            elif isinstance(v, tuple) and v[0] == 'seq':
                return p, ('obj', 'bytes', v)
            elif isinstance(v, tuple) and v[0] == 'adt' and len(v[2]) >= 1 and v[1] == 0:
                # a local wrapper type: cannot see through
                raise Undecided('reader wrapper')
            else:
                raise Undecided('reader %s' % (v[:2] if isinstance(v, tuple) else v,))
        raise Undecided('reader')

    def rd_some(self, I, s, v, n):
        """read exactly n bytes (n None: to the end): [(state, segs | None(eof) | ('err', e))]"""
        p, o = self.find_reader(I, s, v)
        out = []
        if o[1] == 'rd':
            for s1, e in self.may_fail(I, s, 'source read'):
                if e is not None:
                    out.append((s1, ('err', e)))
                    continue
                total = seq_len(o[2])
                if n is None:
                    for s2, g in I.branch(s1, lambda x: self.slice_from(I, x, o[2], o[3])):
                        I.write_ptr(s2, p, o[:3] + (total,) + o[4:])
                        out.append((s2, g))
                else:
                    end = L.add(o[3], n)

                    def f(x, end=end):
                        if not x.ask(L.le(end, total)):
                            return None
                        return I.seq_slice(x, o[2], o[3], end)
                    for s2, g in I.branch(s1, f):
                        if g is not None:
                            I.write_ptr(s2, p, o[:3] + (end,) + o[4:])
                        out.append((s2, g))
            return out
        if o[1] == 'take':
            inner, lim = o[2], o[3]
            for s1, ln in I.branch(s, lambda x: self.rd_avail(I, x, inner)):
                if n is None:
                    # min(limit, available)
                    for s2, c in I.branch(s1, lambda x: x.ask(L.le(lim, ln)) if ln is not None else True):
                        out += self.rd_some(I, s2, inner, lim if c else None)
                else:
                    for s2, c in I.branch(s1, lambda x: x.ask(L.le(n, lim))):
                        if not c:
                            out.append((s2, None))
                            continue
                        for s3, g in self.rd_some(I, s2, inner, n):
                            if p is not None and p[0] == 'ref' and g is not None and g[:1] != ('err',):
                                I.write_ptr(s3, p, ('obj', 'take', inner, L.sub(lim, n)))
                            out.append((s3, g))
            return out
        if o[1] == 'bytes' and n is None:
            # &[u8]: only seen below a decoder that is dropped afterwards
            return [(s, I.ptr_seq(s, p))]
        if o[1] == 'dec':
            if n is not None:
                raise Undecided('partial decode')
            if o[2] == 'lz4' and self.partial:
                q, src = self.find_reader(I, s, o[3])
                while src[1] == 'take':
                    q, src = self.find_reader(I, s, src[2])
                b = src[4] if len(src) > 4 else 'rd'
                if src[1] == 'rd' and s.g(('budget', b), 0) > 0:
                    s1 = s.copy()
                    s1.gset(('budget', b), s.g(('budget', b)) - 1)
                    s1.gset('disturbed', True)
                    s1.note('the source reports an interruption inside the header of an lz4 frame: the decoder loses its place' + at(I))
                    out.append((s1, ('err', ioerr('WrongMagicNumber'))))
            for s1, g in self.rd_some(I, s, o[3], None):
                if g is None or g[:1] == ('err',):
                    out.append((s1, g if g is not None else ('err', ioerr('eof'))))
                    continue
                out.append((s1, _decode(I, s1, o[2], g)))
            return out
        raise Undecided('read of %s' % o[1])

    def rd_avail(self, I, s, v):
        p, o = self.find_reader(I, s, v)
        if o[1] == 'rd':
            return L.sub(seq_len(o[2]), o[3])
        raise Undecided('available of %s' % o[1])

    def slice_from(self, I, s, g, pos):
        n = seq_len(g)
        if not s.ask(L.le(pos, n)):
            return ()
        return I.seq_slice(s, g, pos, n)

    # -------------------------------------------------- dispatch
    def call(self, I, s, c, name, args):
        short = name.split('::')[-1]
        if short in ('as_ref', 'borrow') and name.startswith(('std::convert::AsRef', 'std::borrow::Borrow')):
            v = args[0]
            for _ in range(5):
                x = I.deref(s, v)
                if isinstance(x, tuple) and x[0] in ('ref', 'snap'):
                    v = x
                    continue
                break
            if isinstance(x, tuple) and x[0] == 'seq':
                return [(s, 'ret', v)]
        if short in IO_NAMES:
            f = IO_CALLS.get(name) or IO_CALLS.get('*' + short)
            if f is not None and (name in IO_CALLS or self.io_self(I, s, name, args)):
                return f(self, I, s, c, args)
        return None

    def io_self(self, I, s, name, args):
        if name.startswith(('byteorder::', 'std::io::Read::', 'std::io::Write::', 'std::io::Seek::')):
            return True
        if ' as std::io::' in name or 'impl std::io::' in name:
            v = args[0]
            for _ in range(8):
                if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                    try:
                        v = I.deref(s, v)
                    except Undecided:
                        return False
                else:
                    break
            return isinstance(v, tuple) and v[0] == 'obj' and v[1] in ('rd', 'take', 'dec', 'enc', 'sink')
        return False

    def emit(self, I, s, name, segs):
        s.gset(('unflushed', name), True)
        s.gset(('out', name), norm_segs(s.g(('out', name), ()) + segs))

    # the writer behind v: a sink, a Vec, an encoder or a local Write type
    def find_writer(self, I, s, v):
        p = None
        for _ in range(8):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                p = v
                v = I.deref(s, v)
            elif isinstance(v, tuple) and v[0] == 'obj' and v[1] in ('sink', 'enc'):
                return p, v
            elif isinstance(v, tuple) and v[0] == 'seq':
                return p, v
            elif isinstance(v, tuple) and v[0] == 'adt':
                return p, v
            else:
                raise Undecided('writer %s' % (v[:2] if isinstance(v, tuple) else v,))
        raise Undecided('writer')

    def self_ty(self, I, c):
        for x in (c.get('targs') or []):
            if isinstance(x, int):
                return x
        return None

    def strip_refs(self, I, t):
        while t is not None and I.T[t].get('k') == 'ref':
            t = I.T[t]['t']
        return t

    def do_write(self, I, s, c, v, segs, depth=0):
        """one Write::write call: [(state, ('n', count) | ('err', e) | ('panic', v))]"""
        p, o = self.find_writer(I, s, v)
        out = []
        if o[0] == 'obj' and o[1] == 'sink':
            n = seq_len(segs)
            for s1, e in self.may_fail(I, s, 'sink write', o[2]):
                if e is not None:
                    out.append((s1, ('err', e)))
                    continue
                if self.partial and s1.g(('budget', o[2]), 0) > 0:
                    # accept a proper non-empty part, or report an interruption
                    b = s1.g(('budget', o[2]))
                    s2 = s1.copy()
                    s2.gset(('budget', o[2]), b - 1)
                    s2.note('sink reports an interruption' + at(I))
                    s2.gset('disturbed', True)
                    out.append((s2, ('err', ioerr('Interrupted'))))
                    for s3, m in I.branch(s1.copy(), lambda x: x.ask(L.lt(1, n)) if n is not None else False):
                        if m:
                            s3.gset(('budget', o[2]), b - 1)
                            s3.gset('disturbed', True)
                            s3.note('sink accepts part of a buffer' + at(I))
                            k = s3.fresh('acc')
                            s3.range(k, 1, None)
                            s3.assume(L.lt(L.atom(k), n))
                            self.emit(I, s3, o[2], I.seq_slice(s3, segs, 0, L.atom(k)))
                            out.append((s3, ('n', L.atom(k))))
                self.emit(I, s1, o[2], segs)
                out.append((s1, ('n', n)))
            return out
        if o[0] == 'obj' and o[1] == 'enc':
            I.write_ptr(s, p, o[:4] + (norm_segs(o[4] + segs),))
            return [(s, ('n', seq_len(segs)))]
        if o[0] == 'seq':
            setseq(I, s, p, o[1] + segs)
            return [(s, ('n', seq_len(segs)))]
        if o[0] == 'adt':
            t = self.strip_refs(I, self.self_ty(I, c))
            m = I.tmeth(t, 'write') if t is not None else None
            if m is None:
                raise Undecided('no write for writer type')
            for s1, k, r in I.call(s, m, [p if p is not None else ('snap', o), ('snap', ('seq', segs))]):
                if k != 'ret':
                    out.append((s1, ('panic', r)))
                    continue
                if r[0] == 'symenum':
                    r = I.sym_variant(s1, r)
                if r[1] == 0:
                    out.append((s1, ('n', r[2][0])))
                else:
                    out.append((s1, ('err', r[2][0])))
            return out
        raise Undecided('write to %s' % (o[:2],))

    def do_write_all(self, I, s, c, v, segs):
        """[(state, 'ret'|'panic', value)] following std's write_all loop"""
        out = []
        work = [(s, segs, 0)]
        while work:
            s1, g, it = work.pop()
            if it > 8:
                raise Undecided('write_all loop')
            n = seq_len(g)
            if n == 0:
                out.append((s1, 'ret', ok(UNIT)))
                continue
            for s2, r in self.do_write(I, s1, c, v, g):
                if r[0] == 'panic':
                    out.append((s2, 'panic', r[1]))
                elif r[0] == 'err':
                    e = r[1]
                    if e[:2] == ('obj', 'ioerr') and e[2] == 'Interrupted':
                        work.append((s2, g, it + 1))
                    else:
                        out.append((s2, 'ret', err(e)))
                else:
                    k = I.as_num(r[1])
                    if k is None:
                        raise Undecided('write count')
                    if k == n:
                        out.append((s2, 'ret', ok(UNIT)))
                        continue

                    def f(x):
                        if x.ask(L.eq(k, 0)) and not (x.facts.prove(L.eq(n, 0)) is True):
                            return 'zero'
                        if not x.ask(L.le(k, n)):
                            return 'over'
                        return I.seq_slice(x, g, k, n)
                    for s3, h in I.branch(s2, f):
                        if h == 'zero':
                            out.append((s3, 'ret', err(ioerr('WriteZero'))))
                        elif h == 'over':
                            out.append((s3, 'panic', 'write returned more than the buffer length'))
                        elif not h:
                            out.append((s3, 'ret', ok(UNIT)))
                        else:
                            work.append((s3, h, it + 1))
        return out


def _decode(I, s, codec, g):
    g = norm_segs(g)
    if len(g) == 1 and g[0][0] == 's' and isinstance(g[0][1], tuple) and g[0][1][0] == 'enc' and g[0][1][1] == codec:
        if g[0][2] == 0 and g[0][3] == enc_len(g[0][1]):
            return g[0][1][3]
    if len(g) == 1 and g[0][0] == 's' and isinstance(g[0][1], tuple) and g[0][1][0] == 'enc' and g[0][1][1] != codec:
        return ('err', ioerr('wrong codec'))
    raise Undecided('decoding opaque bytes')


IO_CALLS = {}


def io(*names):
    def deco(f):
        for n in names:
            IO_CALLS[n] = f
        return f
    return deco


def endian(I, c):
    for x in c.get('targs') or []:
        if isinstance(x, int):
            p = I.T[x].get('path', '') or I.T[x].get('s', '')
            if 'LittleEndian' in p:
                return 'le'
            if 'BigEndian' in p:
                return 'be'
    raise Undecided('endianness')


def _read_int(n):
    def f(self, I, s, c, a):
        out = []
        order = endian(I, c) if n > 1 else 'be'
        for s1, g in self.rd_some(I, s, a[0], n):
            if g is None:
                out.append((s1, 'ret', err(ioerr('UnexpectedEof'))))
            elif g[:1] == ('err',):
                out.append((s1, 'ret', err(g[1])))
            else:
                self.cs = s1
                out.append((s1, 'ret', ok(dec_int(I, s1, g, order, n) if n > 1 else I.seq_get(s1, g, 0))))
        return out
    return f


for _n, _w in (('read_u8', 1), ('read_u16', 2), ('read_u32', 4), ('read_u64', 8), ('read_i8', 1)):
    IO_CALLS['byteorder::ReadBytesExt::' + _n] = _read_int(_w)


def _write_int(n):
    def f(self, I, s, c, a):
        order = endian(I, c) if n > 1 else 'be'
        v = a[1]
        if isinstance(v, int):
            g = tuple(('e', x) for x in (v % (1 << 8 * n)).to_bytes(n, 'big' if order == 'be' else 'little'))
        elif n == 1:
            g = (('e', v),)
        else:
            g = (('n', order, n, v),)
        return self.do_write_all(I, s, c, a[0], g)
    return f


for _n, _w in (('write_u8', 1), ('write_u16', 2), ('write_u32', 4), ('write_u64', 8)):
    IO_CALLS['byteorder::WriteBytesExt::' + _n] = _write_int(_w)


@io('*read_to_end')
def read_to_end(self, I, s, c, a):
    out = []
    vec = inner_ptr(I, s, a[1])
    for s1, g in self.rd_some(I, s, a[0], None):
        if g is None:
            g = ()
        if g[:1] == ('err',):
            out.append((s1, 'ret', err(g[1])))
            continue
        setseq(I, s1, vec, I.ptr_seq(s1, vec) + g)
        out.append((s1, 'ret', ok(seq_len(g))))
    return out


@io('*read_exact')
def read_exact(self, I, s, c, a):
    out = []
    p = inner_ptr(I, s, a[1])
    n = I.len_of(s, I.deref(s, p))
    for s1, g in self.rd_some(I, s, a[0], n):
        if g is None:
            out.append((s1, 'ret', err(ioerr('UnexpectedEof'))))
        elif g[:1] == ('err',):
            out.append((s1, 'ret', err(g[1])))
        else:
            I.write_ptr(s1, p, ('seq', g))
            out.append((s1, 'ret', ok(UNIT)))
    return out


@io('*read')
def read_some(self, I, s, c, a):
    """one read call: anything between one byte and the whole buffer"""
    p = inner_ptr(I, s, a[1])
    v = I.deref(s, p)
    n = I.len_of(s, v)
    q, o = self.find_reader(I, s, a[0])
    if o[1] == 'dec':
        # what a decoder hands out is cut as arbitrarily as what a source does
        out = []
        for s1, g in self.rd_some(I, s, a[0], None):
            if g is None or g[:1] == ('err',):
                out.append((s1, 'ret', err(g[1] if g else ioerr('eof'))))
                continue
            I.write_ptr(s1, q, ('obj', 'rd', g, 0))
            out += read_some(self, I, s1, c, a)
        return out
    lim = None
    src = o
    if o[1] == 'take':
        lim = o[2 + 1]
        q2, src = self.find_reader(I, s, o[2])
    if src[1] != 'rd':
        raise Undecided('raw read')
    bud = ('budget', src[4] if len(src) > 4 else 'rd')
    base = o[2] if o[1] == 'take' else a[0]
    out = []
    for s1, e in self.may_fail(I, s, 'source read'):
        if e is not None:
            out.append((s1, 'ret', err(e)))
            continue
        av = self.rd_avail(I, s1, base)

        def f(x):
            if x.ask(L.eq(av, 0)):
                return 0
            m = n if x.ask(L.le(n, av)) else av
            if lim is not None and not x.ask(L.le(m, lim)):
                m = lim
            return m
        for s2, m in I.branch(s1, f):
            alts = []
            if self.partial and m != 0 and s2.g(bud, 0) > 0:
                s3 = s2.copy()
                s3.gset(bud, s2.g(bud) - 1)
                s3.gset('disturbed', True)
                s6 = s3.copy()
                s6.note('the source reports an interruption' + at(I))
                out.append((s6, 'ret', err(ioerr('Interrupted'))))
                s3.note('the source serves a short read' + at(I))
                for s4, big in I.branch(s3, lambda x: x.ask(L.lt(1, m))):
                    if big:
                        k = s4.fresh('short')
                        s4.range(k, 1, None)
                        s4.assume(L.lt(L.atom(k), m))
                        alts.append((s4, L.atom(k)))
            alts.append((s2, m))
            for s4, m2 in alts:
                if m2 == 0:
                    out.append((s4, 'ret', ok(0)))
                    continue
                for s5, g in IODom.rd_some(_nofault(self), I, s4, base, m2):
                    if lim is not None and q is not None:
                        I.write_ptr(s5, q, ('obj', 'take', o[2], L.sub(lim, m2)))
                    I.write_ptr(s5, p, ('seq', norm_segs(g + I.seq_slice(s5, I.ptr_seq(s5, p), m2, n))))
                    out.append((s5, 'ret', ok(m2)))
    return out


class _NF(IODom):
    def may_fail(self, I, s, what, tag=''):
        return [(s, None)]


def _nofault(d):
    return _NF()


@io('std::io::Read::take')
def take(self, I, s, c, a):
    return [(s, 'ret', ('obj', 'take', a[0], a[1]))]


@io('std::io::Read::by_ref', 'std::io::Write::by_ref')
def by_ref(self, I, s, c, a):
    return [(s, 'ret', a[0])]


@io('*seek')
def seek(self, I, s, c, a):
    p, o = self.find_reader(I, s, a[0])
    if o[1] != 'rd':
        raise Undecided('seek on %s' % o[1])
    w = a[1]
    if w[0] != 'adt':
        raise Undecided('seek argument')
    out = []
    for s1, e in self.may_fail(I, s, 'source seek'):
        if e is not None:
            out.append((s1, 'ret', err(e)))
            continue
        # std::io::SeekFrom { Start(u64), End(i64), Current(i64) }
        off = I.as_num(w[2][0])
        if off is None:
            raise Undecided('seek offset')
        pos = off if w[1] == 0 else L.add(seq_len(o[2]) if w[1] == 1 else o[3], off)
        for s2, neg in I.branch(s1, lambda x: x.ask(L.lt(pos, 0))):
            if neg:
                out.append((s2, 'ret', err(ioerr('InvalidInput', 'negative seek'))))
            else:
                I.write_ptr(s2, p, o[:3] + (pos,) + o[4:])
                out.append((s2, 'ret', ok(pos)))
    return out


for _n in ('rewind', 'stream_position'):
    def _f(self, I, s, c, a, _n=_n):
        p, o = self.find_reader(I, s, a[0])
        if o[1] != 'rd':
            raise Undecided(_n)
        out = []
        for s1, e in self.may_fail(I, s, 'source seek'):
            if e is not None:
                out.append((s1, 'ret', err(e)))
            elif _n == 'rewind':
                I.write_ptr(s1, p, o[:3] + (0,) + o[4:])
                out.append((s1, 'ret', ok(UNIT)))
            else:
                out.append((s1, 'ret', ok(o[3])))
        return out
    IO_CALLS['std::io::Seek::' + _n] = _f


@io('*write_all')
def write_all(self, I, s, c, a):
    return self.do_write_all(I, s, c, a[0], I.ptr_seq(s, a[1]))


@io('*write')
def write(self, I, s, c, a):
    out = []
    for s1, r in self.do_write(I, s, c, a[0], I.ptr_seq(s, a[1])):
        if r[0] == 'panic':
            out.append((s1, 'panic', r[1]))
        elif r[0] == 'err':
            out.append((s1, 'ret', err(r[1])))
        else:
            out.append((s1, 'ret', ok(r[1])))
    return out


@io('*flush')
def flush(self, I, s, c, a):
    p, o = self.find_writer(I, s, a[0])
    if o[0] == 'obj' and o[1] == 'sink':
        out = []
        for s1, e in self.may_fail(I, s, 'sink flush', o[2]):
            if e is None:
                s1.gset(('unflushed', o[2]), False)
            out.append((s1, 'ret', err(e) if e is not None else ok(UNIT)))
        return out
    if o[0] == 'obj' and o[1] == 'rd':
        return [(s1, 'ret', err(e) if e is not None else ok(UNIT)) for s1, e in self.may_fail(I, s, 'chunk flush')]
    if o[0] == 'adt':
        t = self.strip_refs(I, self.self_ty(I, c))
        m = I.tmeth(t, 'flush') if t is not None else None
        if m is None:
            raise Undecided('flush of local type')
        return I.call(s, m, [p])
    return [(s, 'ret', ok(UNIT))]


# ------------------------------------------------------------------ codecs (trusted to round-trip)
PIN = [False]     # lengths of encoded data: unknown, or some fixed number for each


def enc_sym(codec, lvl, g):
    sym = ('enc', codec, lvl, norm_segs(g))
    return ('s', sym, 0, enc_len(sym))


def enc_len(sym):
    if PIN[0]:
        n = seq_len(sym[3])
        return 9 + (n // 2 if isinstance(n, int) else 60) + ['zlib', 'snappy', 'lz4'].index(sym[1]) if sym[1] in (
            'zlib', 'snappy', 'lz4') else 13 + (n // 3 if isinstance(n, int) else 60)
    return L.atom(('len', sym))


def encv(codec, lvl, g):
    return ('seq', (enc_sym(codec, lvl, g),))


@io('flate2::Compression::new')
def zl_new(self, I, s, c, a):
    out = []
    for s1, good in I.branch(s, lambda x: x.ask(L.le(a[0], 10))):
        if good:
            out.append((s1, 'ret', ('obj', 'zlevel', a[0])))
        else:
            s1.gset('zlevel_over', True)
            out.append((s1, 'panic', 'flate2 rejects compression levels above 10' + at(I)))
    return out


def dec_new(codec):
    def f(self, I, s, c, a):
        return [(s, 'ret', ('obj', 'dec', codec, a[0]))]
    return f


def enc_new(codec, lv):
    def f(self, I, s, c, a):
        g = a[0][1] if a[0][0] == 'seq' else None
        if g != ():
            raise Undecided('encoder target')
        return [(s, 'ret', ('obj', 'enc', codec, a[1] if lv else None, ()))]
    return f


def enc_finish(self, I, s, c, a):
    o = a[0]
    if o[:2] != ('obj', 'enc'):
        raise Undecided('encoder finish')
    out = []
    for s1, e in [(s, None)]:
        out.append((s1, 'ret', ok(encv(o[2], o[3], o[4])) if e is None else err(e)))
    return out


IO_CALLS['flate2::read::ZlibDecoder::new'] = dec_new('zlib')
IO_CALLS['snap::read::FrameDecoder::new'] = dec_new('snappy')
IO_CALLS['lz4_flex::frame::FrameDecoder::new'] = dec_new('lz4')
IO_CALLS['flate2::write::ZlibEncoder::new'] = enc_new('zlib', True)
IO_CALLS['snap::write::FrameEncoder::new'] = enc_new('snappy', False)
IO_CALLS['lz4_flex::frame::FrameEncoder::new'] = enc_new('lz4', False)
IO_CALLS['flate2::write::ZlibEncoder::finish'] = enc_finish
IO_CALLS['snap::write::FrameEncoder::into_inner'] = enc_finish
IO_CALLS['lz4_flex::frame::FrameEncoder::finish'] = enc_finish


@io('snap::raw::Encoder::new', 'snap::raw::Decoder::new')
def snap_new(self, I, s, c, a):
    return [(s, 'ret', ('obj', 'snapraw'))]


@io('snap::raw::Encoder::compress_vec')
def snap_cv(self, I, s, c, a):
    g = I.ptr_seq(s, a[1])
    return [(s1, 'ret', ok(encv('snappyraw', None, g)) if e is None else err(e)) for s1, e in [(s, None)]]


@io('snap::raw::decompress_len')
def snap_dl(self, I, s, c, a):
    g = _decode(I, s, 'snappyraw', I.ptr_seq(s, a[0]))
    if g[:1] == ('err',):
        return [(s, 'ret', err(g[1]))]
    return [(s1, 'ret', ok(seq_len(g)) if e is None else err(e)) for s1, e in [(s, None)]]


@io('snap::raw::Decoder::decompress')
def snap_dec(self, I, s, c, a):
    g = _decode(I, s, 'snappyraw', I.ptr_seq(s, a[1]))
    if g[:1] == ('err',):
        return [(s, 'ret', err(g[1]))]
    p = inner_ptr(I, s, a[2])
    out = []
    for s1, e in [(s, None)]:
        if e is not None:
            out.append((s1, 'ret', err(e)))
            continue
        n = I.len_of(s1, I.deref(s1, p))
        for s2, fits in I.branch(s1, lambda x: x.ask(L.le(seq_len(g), n))):
            if not fits:
                out.append((s2, 'ret', err(ioerr('BufferTooSmall'))))
                continue
            old = I.ptr_seq(s2, p)
            rest = I.seq_slice(s2, old, seq_len(g), n)
            I.write_ptr(s2, p, ('seq', norm_segs(g + rest)))
            out.append((s2, 'ret', ok(seq_len(g))))
    return out


@io('zstd::stream::copy_decode')
def zstd_dec(self, I, s, c, a):
    out = []
    vec = inner_ptr(I, s, a[1])
    for s1, g in self.rd_some(I, s, ('obj', 'dec', 'zstd', a[0]), None):
        if g is None or g[:1] == ('err',):
            out.append((s1, 'ret', err(g[1] if g else ioerr('eof'))))
            continue
        setseq(I, s1, vec, I.ptr_seq(s1, vec) + g)
        out.append((s1, 'ret', ok(UNIT)))
    return out


@io('zstd::stream::copy_encode')
def zstd_enc(self, I, s, c, a):
    vec = inner_ptr(I, s, a[1])
    g = I.ptr_seq(s, a[0])
    out = []
    for s1, e in [(s, None)]:
        if e is not None:
            out.append((s1, 'ret', err(e)))
            continue
        setseq(I, s1, vec, I.ptr_seq(s1, vec) + encv('zstd', a[2], g)[1])
        out.append((s1, 'ret', ok(UNIT)))
    return out


@io('std::io::copy')
def io_copy(self, I, s, c, a):
    p = inner_ptr(I, s, a[0])
    v = I.deref(s, p)
    out = []
    if v[0] == 'seq':
        g = v[1]
        rs = self.do_write_all(I, s, c, a[1], g)
    else:
        rs = []
        for s1, g in self.rd_some(I, s, a[0], None):
            if g is None:
                g = ()
            if g[:1] == ('err',):
                rs.append((s1, 'ret', err(g[1])))
            else:
                rs += self.do_write_all(I, s1, c, a[1], g)
    for s1, k, r in rs:
        out.append((s1, k, ok(seq_len(g)) if k == 'ret' and r[1] == 0 else r))
    return out


@io('snap::error::<impl std::convert::From for std::io::Error>::from', 'lz4_flex::frame::<impl std::convert::From for std::io::Error>::from',
    '<std::io::Error as std::convert::From>::from', 'snap::write::IntoInnerError::error', 'std::io::Error::from')
def err_from(self, I, s, c, a):
    v = vderef(I, s, a[0])
    if v[0] == 'adt':
        return [(s, 'ret', ioerr('kind', v))]
    return [(s, 'ret', v if (c.get('rpath') or c['path']).endswith('from') else a[0])]


KINDS = ('NotFound', 'PermissionDenied', 'UnexpectedEof', 'WriteZero', 'WouldBlock', 'TimedOut', 'InvalidData', 'InvalidInput', 'BrokenPipe', 'Other')


@io('std::io::Error::kind')
def err_kind(self, I, s, c, a):
    v = vderef(I, s, a[0])
    vs = next((t['variants'] for t in I.T if t.get('path') in ('std::io::ErrorKind', 'std::io::error::ErrorKind') and t.get('variants')), None)
    if vs is None or v[:2] != ('obj', 'ioerr'):
        raise Undecided('error kind')
    ix = {x['name']: i for i, x in enumerate(vs)}
    if v[2] in ix:
        return [(s, 'ret', ('adt', ix[v[2]], ()))]
    # an injected failure may be of any kind except an interruption, which is none
    return [(s, 'ret', ('symenum', ('error kind', v), tuple((ix[k], ()) for k in KINDS if k in ix)))]


@io('<std::io::ErrorKind as std::cmp::PartialEq>::eq', '<std::io::ErrorKind as std::cmp::PartialEq>::ne')
def kind_eq(self, I, s, c, a):
    ne = (c.get('rpath') or c['path']).endswith('ne')
    out = []

    def f(x):
        v = [I.sym_variant(x, y) if y[0] == 'symenum' else y for y in (vderef(I, x, z) for z in a)]
        if any(y[0] != 'adt' for y in v):
            raise Undecided('error kind')
        return v[0][1] == v[1][1]
    return [(s1, 'ret', int(r != ne)) for s1, r in I.branch(s, f)]


@io('std::io::Error::new', 'std::io::Error::other')
def err_new(self, I, s, c, a):
    return [(s, 'ret', ioerr('new', a[-1] if isinstance(a[-1], tuple) and a[-1][0] in ('snap', 'top') else ''))]


IO_NAMES = set(n.lstrip('*').split('::')[-1] for n in IO_CALLS)
