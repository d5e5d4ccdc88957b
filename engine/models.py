"""Models of the standard-library (and helper-crate) leaves reached from the crate's MIR."""
from . import lin as L
from .core import (container, Undecided, Panic, Fork, Infeasible, UNIT, NONE, some, ok, err, seq, norm_segs, seq_len, seg_len,
                   explode, bytes_seq, wrap, imax)

MODELS = {}
FORCE = set()
MODELS['!force'] = FORCE
ORD = {-1: ('adt', 0, ()), 0: ('adt', 1, ()), 1: ('adt', 2, ())}


def model(*names, force=False):
    def deco(f):
        for n in names:
            MODELS[n] = f
            if force:
                FORCE.add(n)
        return f
    return deco


def outs1(s, v):
    return [(s, 'ret', v)]


def branch(I, s, fn):
    return [(x, 'ret', v) for x, v in I.branch(s, fn)]


def tyargs(I, c):
    return [x for x in (c.get('rtargs') or c.get('targs') or []) if isinstance(x, int)]


def setseq(I, s, p, segs):
    I.write_ptr(s, p, ('seq', norm_segs(segs)))


def peel(v):
    while isinstance(v, tuple) and v[0] in ('adt', 'tup'):
        fs = v[-1]
        c = [x for x in fs if not (isinstance(x, tuple) and x[0] == 'top')]
        if len(c) != 1:
            break
        v = c[0]
    return v


# ------------------------------------------------------------------ Vec / Box
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', '<std::vec::Vec as std::default::Default>::default')
def vec_new(I, s, c, a):
    return ('seq', ())


@model('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def vec_len(I, s, c, a):
    return I.ptr_len(s, a[0])


def vderef(I, s, v):
    for _ in range(6):
        if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
            v = I.deref(s, v)
        else:
            return v
    return v


def inner_ptr(I, s, p):
    """collapse pointer-to-pointer down to the pointer whose target is not a pointer"""
    for _ in range(6):
        v = I.deref(s, p)
        if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
            p = v
        else:
            return p
    return p


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::is_empty', 'core::str::<impl str>::is_empty')
def vec_is_empty(I, s, c, a):
    return I.cond(L.eq(I.ptr_len(s, a[0]), 0))


@model('std::vec::Vec::clear')
def vec_clear(I, s, c, a):
    setseq(I, s, a[0], ())
    return UNIT


@model('std::vec::Vec::push')
def vec_push(I, s, c, a):
    setseq(I, s, a[0], I.ptr_seq(s, a[0]) + (('e', a[1]),))
    return UNIT


@model('std::vec::Vec::pop')
def vec_pop(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        if not g:
            return NONE
        if g[-1][0] != 'e':
            n = seq_len(g)
            if s.ask(L.eq(n, 0)):
                return NONE
            r = I.seq_slice(s, g, 0, L.sub(n, 1))
            v = I.seg_elem(s, g[-1], L.sub(seg_len(g[-1]), 1))
            setseq(I, s, a[0], r)
            return some(v)
        setseq(I, s, a[0], g[:-1])
        return some(g[-1][1])
    return branch(I, s, f)


@model('std::vec::Vec::truncate')
def vec_truncate(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        n = seq_len(g)
        if a[1] == 0:
            setseq(I, s, a[0], ())
            return UNIT
        if s.ask(L.le(n, a[1])):
            return UNIT
        setseq(I, s, a[0], I.seq_slice(s, g, 0, a[1]))
        return UNIT
    return branch(I, s, f)


@model('std::vec::Vec::resize')
def vec_resize(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        n = seq_len(g)
        m = I.as_num(a[1])
        if m is None:
            raise Undecided('resize to unknown')
        if s.ask(L.le(m, n)):
            setseq(I, s, a[0], I.seq_slice(s, g, 0, m))
        else:
            setseq(I, s, a[0], g + (('rep', a[2], L.sub(m, n)),))
        return UNIT
    return branch(I, s, f)


@model('std::vec::from_elem')
def from_elem(I, s, c, a):
    n = I.as_num(a[1])
    if isinstance(n, int) and n <= 32:
        return ('seq', tuple(('e', a[0]) for _ in range(n)))
    if n is None:
        raise Undecided('vec![_; unknown]')
    return ('seq', norm_segs((('rep', a[0], n),)))


@model('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append_elements')
def vec_extend_from_slice(I, s, c, a):
    setseq(I, s, a[0], I.ptr_seq(s, a[0]) + I.ptr_seq(s, a[1]))
    return UNIT


@model('std::vec::Vec::append')
def vec_append(I, s, c, a):
    g = I.ptr_seq(s, a[1])
    setseq(I, s, a[0], I.ptr_seq(s, a[0]) + g)
    setseq(I, s, a[1], ())
    return UNIT


@model('std::vec::Vec::insert')
def vec_insert(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        x, y = I.seq_cut(s, g, a[1])
        setseq(I, s, a[0], x + (('e', a[2]),) + y)
        return UNIT
    return branch(I, s, f)


@model('std::vec::Vec::remove')
def vec_remove(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        v = I.seq_get(s, g, a[1])
        setseq(I, s, a[0], I.seq_slice(s, g, 0, a[1]) + I.seq_slice(s, g, L.add(a[1], 1), seq_len(g)))
        return v
    return branch(I, s, f)


@model('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', '<std::vec::Vec as std::ops::Deref>::deref',
       '<std::vec::Vec as std::ops::DerefMut>::deref_mut', '<std::vec::Vec as std::convert::AsRef>::as_ref',
       'std::slice::<impl std::borrow::Borrow for std::vec::Vec>::borrow', '<std::vec::Vec as std::convert::AsMut>::as_mut',
       'core::str::<impl std::convert::AsRef for str>::as_ref', 'core::str::<impl str>::as_bytes',
       'std::vec::Vec::leak', 'std::vec::Vec::into_boxed_slice')
def ident(I, s, c, a):
    return a[0]


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
       '<std::vec::Vec as std::clone::Clone>::clone', '<std::vec::Vec as std::convert::From>::from',
       '<&[T] as std::convert::Into>::into', 'std::slice::<impl [T]>::into_vec')
def to_vec(I, s, c, a):
    g = I.ptr_seq(s, a[0])
    if all(x[0] in ('s', 'n', 'ns', 'rep', 'run', 'frun') or (x[0] == 'e' and not needs_clone(x[1])) for x in g):
        return ('seq', g)
    if 'clone' not in (c.get('rpath') or c['path']):
        return ('seq', g)
    ta = tyargs(I, c)
    et = ta[0] if ta else None
    m = I.tmeth(et, 'clone') if et is not None else None
    if m is None:
        # elementwise Clone of plain data
        return ('seq', g)
    res = [(s, ())]
    for i, x in enumerate(g):
        nxt = []
        for s2, acc in res:
            p = I.elem_ptr(s2, inner_ptr(I, s2, a[0]), ('e', i)) if all(y[0] == 'e' for y in g) else None
            if p is None:
                raise Undecided('clone of mixed vec')
            for s3, k, v in I.call(s2, m, [p]):
                if k != 'ret':
                    return_panic = (s3, k, v)
                    continue
                nxt.append((s3, acc + (('e', v),)))
        res = nxt
    return [(s2, 'ret', ('seq', acc)) for s2, acc in res]


def needs_clone(v):
    return isinstance(v, tuple) and v[0] in ('adt', 'obj', 'tup', 'ref', 'clo', 'symenum')


@model('std::boxed::Box::new_uninit')
def box_new_uninit(I, s, c, a):
    return ('ref', s.alloc(('top', 'uninit')), ())


@model('std::boxed::Box::new')
def box_new(I, s, c, a):
    return ('ref', s.alloc(a[0]), ())


@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, s, c, a):
    v = I.deref(s, a[0])
    while isinstance(v, tuple) and v[0] == 'adt':
        nx = [x for x in v[2] if isinstance(x, tuple) and x[0] in ('adt', 'seq')]
        if len(nx) != 1:
            raise Undecided('vec! shape')
        v = nx[0]
    if v[0] != 'seq':
        raise Undecided('vec! shape')
    s.kill(a[0][1])
    return v


# ------------------------------------------------------------------ indexing
def range_of(I, s, c, idx, n):
    """(lo, hi) of a range value, by the index type recorded in the callee"""
    kind = None
    for t in reversed(tyargs(I, c)):
        p = I.T[t].get('path', '')
        if p.startswith('std::ops::Range'):
            kind = p.split('::')[-1]
            break
    if kind is None:
        return None
    if kind == 'RangeFull':
        return 0, n
    f = idx[2] if idx[0] == 'adt' else None
    if f is None:
        raise Undecided('range value')
    f = [I.as_num(x) if not isinstance(x, tuple) or x[0] in ('lin', 'bv') else x for x in f]
    if kind == 'Range':
        return f[0], f[1]
    if kind == 'RangeFrom':
        return f[0], n
    if kind == 'RangeTo':
        return 0, f[0]
    if kind == 'RangeInclusive':
        return f[0], L.add(f[1], 1)
    if kind == 'RangeToInclusive':
        return 0, L.add(f[0], 1)
    raise Undecided('range kind ' + kind)


def index_model(I, s, c, a, opt=False):
    idx = a[1]
    if I.dom is not None and isinstance(idx, tuple) and idx[0] == 'obj':
        r = I.dom.index(I, s, a[0], idx, opt)
        if r is not None:
            return r

    def f(s):
        p = inner_ptr(I, s, a[0])
        v = I.deref(s, p)
        n = I.ptr_len(s, p)
        r = range_of(I, s, c, idx, n)
        if r is None:
            i = I.as_num(idx)
            if i is None:
                raise Undecided('index by unknown')
            lt = L.lt(i, n)
            if opt:
                if not s.ask(lt):
                    return NONE
            else:
                need(I, s, lt, 'index out of bounds')
            return (some if opt else lambda x: x)(I.elem_ptr(s, p, ('e', i)))
        lo, hi = r
        if lo is None or hi is None or not (L.is_lin(lo) and L.is_lin(hi)):
            raise Undecided('slice by unknown')
        g = L.and_(L.le(lo, hi), L.le(hi, n))
        if opt:
            if not s.ask(g):
                return NONE
        else:
            need(I, s, L.le(lo, hi), 'slice index starts after its end')
            need(I, s, L.le(hi, n), 'slice end out of range')
        q = slice_ptr(I, s, p, v, lo, hi)
        return some(q) if opt else q
    return branch(I, s, f)


def need(I, s, f, what):
    r = s.facts.prove(f)
    if r is True:
        return
    if I.dom is not None:
        I.dom.on_bound(I, s, f, what)
    if r is False:
        raise Panic(what + at(I))
    if I.bounds == 'assume':
        s.assume(f)
        return
    if not s.ask(f):
        raise Panic(what + at(I))


def at(I):
    b = getattr(I, 'site', None)
    return ' at %s %s' % (b[0]['np'], b[1]['sp']) if b else ''


def slice_ptr(I, s, p, v, lo, hi):
    n = I.ptr_len(s, p)
    if lo == 0 and hi == n:
        return p
    if p[0] == 'snap' or (v[0] == 'seq' and any(x[0] != 'e' for x in v[1])):
        # reads of byte strings are snapshotted (the borrow checker forbids writes while it lives)
        if p[0] != 'snap' and (ptr_is_mut(I) or s.g(('alloc', p[1])) is not None):
            return ('ref', p[1], p[2] + (('ss', lo, hi),))
        r = ('snap', ('seq', I.seq_slice(s, v[1], lo, hi)))
        if I.dom is not None and I.dom.lend:
            w = container(I, s, p)
            if w is not None:
                r += (w,)
        return r
    return ('ref', p[1], p[2] + (('ss', lo, hi),))


def ptr_is_mut(I):
    return getattr(I, '_mut', False)


@model('core::slice::index::<impl std::ops::Index for [T]>::index', '<std::vec::Vec as std::ops::Index>::index',
       'core::array::<impl std::ops::Index for [T; N]>::index', 'std::array::<impl std::ops::Index for [T; N]>::index')
def index_(I, s, c, a):
    I._mut = False
    return index_model(I, s, c, a)


@model('core::slice::index::<impl std::ops::IndexMut for [T]>::index_mut', '<std::vec::Vec as std::ops::IndexMut>::index_mut',
       'core::array::<impl std::ops::IndexMut for [T; N]>::index_mut', 'std::array::<impl std::ops::IndexMut for [T; N]>::index_mut')
def index_mut(I, s, c, a):
    I._mut = True
    try:
        return index_model(I, s, c, a)
    finally:
        I._mut = False


@model('core::slice::<impl [T]>::get', 'std::vec::Vec::get')
def slice_get(I, s, c, a):
    I._mut = False
    return index_model(I, s, c, a, opt=True)


@model('core::slice::<impl [T]>::get_mut')
def slice_get_mut(I, s, c, a):
    I._mut = True
    try:
        return index_model(I, s, c, a, opt=True)
    finally:
        I._mut = False


def end_elem(I, s, p, last, mut=False):
    p = inner_ptr(I, s, p)
    if I.dom is not None:
        r = I.dom.seq_end(I, s, p, last)
        if r is not None:
            return r
    v = I.deref(s, p)
    n = I.len_of(s, v)
    if s.ask(L.eq(n, 0)):
        return NONE
    if mut and p[0] == 'ref':
        return some(I.elem_ptr(s, p, ('e', L.sub(n, 1) if last else 0)))
    if v[0] == 'seq':
        g = v[1][-1 if last else 0]
        if g[0] == 'e' and all(x[0] == 'e' for x in v[1]):
            return some(I.elem_ptr(s, p, ('e', len(v[1]) - 1 if last else 0)))
        # possibly empty end segments
        segs = v[1][::-1] if last else v[1]
        for g in segs:
            if s.ask(L.eq(seg_len(g), 0)):
                continue
            if g[0] == 'e':
                return some(('snap', g[1]))
            return some(('snap', I.seg_elem(s, g, L.sub(seg_len(g), 1) if last else 0)))
        return NONE
    return some(I.elem_ptr(s, p, ('e', L.sub(n, 1) if last else 0)))


@model('core::slice::<impl [T]>::first')
def slice_first(I, s, c, a):
    return branch(I, s, lambda s: end_elem(I, s, a[0], False))


@model('core::slice::<impl [T]>::first_mut')
def slice_first_mut(I, s, c, a):
    return branch(I, s, lambda s: end_elem(I, s, a[0], False, True))


@model('core::slice::<impl [T]>::last_mut')
def slice_last_mut(I, s, c, a):
    return branch(I, s, lambda s: end_elem(I, s, a[0], True, True))


@model('core::slice::<impl [T]>::last')
def slice_last(I, s, c, a):
    return branch(I, s, lambda s: end_elem(I, s, a[0], True))


def sub_ptr(I, s, p, lo, hi, mut):
    v = I.deref(s, p)
    I._mut = mut
    try:
        return slice_ptr(I, s, p, v, lo, hi)
    finally:
        I._mut = False


def split_at(mut):
    def m(I, s, c, a):
        def f(s):
            p = inner_ptr(I, s, a[0])
            n = I.ptr_len(s, p)
            k = I.as_num(a[1])
            if k is None:
                raise Undecided('split_at unknown')
            need(I, s, L.le(k, n), 'split_at beyond the end')
            return ('tup', (sub_ptr(I, s, p, 0, k, mut), sub_ptr(I, s, p, k, n, mut)))
        return branch(I, s, f)
    return m


MODELS['core::slice::<impl [T]>::split_at'] = split_at(False)
MODELS['core::slice::<impl [T]>::split_at_mut'] = split_at(True)


def split_end(last, mut):
    def m(I, s, c, a):
        def f(s):
            p = inner_ptr(I, s, a[0])
            v = I.deref(s, p)
            n = I.len_of(s, v)
            if s.ask(L.eq(n, 0)):
                return NONE
            i = L.sub(n, 1) if last else 0
            lo, hi = (0, L.sub(n, 1)) if last else (1, n)
            e = I.elem_ptr(s, p, ('e', i))
            return some(('tup', (e, sub_ptr(I, s, p, lo, hi, mut))))
        return branch(I, s, f)
    return m


MODELS['core::slice::<impl [T]>::split_first'] = split_end(False, False)
MODELS['core::slice::<impl [T]>::split_last'] = split_end(True, False)
MODELS['core::slice::<impl [T]>::split_first_mut'] = split_end(False, True)
MODELS['core::slice::<impl [T]>::split_last_mut'] = split_end(True, True)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice',
       'core::slice::copy_from_slice_impl')
def copy_from_slice(I, s, c, a):
    def f(s):
        p = inner_ptr(I, s, a[0])
        v = I.deref(s, p)
        g = I.ptr_seq(s, a[1])
        need(I, s, L.eq(I.ptr_len(s, p), seq_len(g)), 'copy_from_slice: lengths differ')
        I.write_ptr(s, p, ('seq', g))
        return UNIT
    return branch(I, s, f)


@model('core::slice::<impl [T]>::fill')
def slice_fill(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    n = I.len_of(s, I.deref(s, p))
    I.write_ptr(s, p, ('seq', norm_segs((('rep', a[1], n),))))
    return UNIT


@model('core::slice::<impl [T]>::starts_with')
def starts_with(I, s, c, a):
    def f(s):
        x, y = I.ptr_seq(s, a[0]), I.ptr_seq(s, a[1])
        if I.dom is not None:
            r = I.dom.prefix_bytes(I, s, x, y)
            if r is not None:
                return 1 if r else 0
        n, m = seq_len(x), seq_len(y)
        if not s.ask(L.le(m, n)):
            return 0
        return 1 if I.eq_segs(s, I.seq_slice(s, x, 0, m), y) else 0
    return branch(I, s, f)


@model('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::shrink_to',
       'std::collections::BinaryHeap::reserve', 'std::collections::BinaryHeap::shrink_to_fit')
def vec_reserve(I, s, c, a):
    return UNIT


@model('std::vec::Vec::swap_remove')
def vec_swap_remove(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        n = seq_len(g)
        need(I, s, L.lt(a[1], n), 'swap_remove beyond the end')
        v = I.seq_get(s, g, a[1])
        last = I.seq_get(s, g, L.sub(n, 1))
        rest = I.seq_slice(s, g, 0, L.sub(n, 1))
        if not s.ask(L.eq(a[1], L.sub(n, 1))):
            rest = I.seq_slice(s, rest, 0, a[1]) + (('e', last),) + I.seq_slice(s, rest, L.add(a[1], 1), L.sub(n, 1))
        setseq(I, s, a[0], rest)
        return v
    return branch(I, s, f)


@model('std::vec::Vec::split_off')
def vec_split_off(I, s, c, a):
    def f(s):
        g = I.ptr_seq(s, a[0])
        need(I, s, L.le(a[1], seq_len(g)), 'split_off beyond the end')
        x, y = I.seq_cut(s, g, a[1])
        setseq(I, s, a[0], x)
        return ('seq', norm_segs(y))
    return branch(I, s, f)


@model('core::slice::<impl [T]>::reverse')
def slice_reverse(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    v = I.deref(s, p)
    if v[0] != 'seq' or any(x[0] != 'e' for x in v[1]):
        raise Undecided('reverse of a summarised slice')
    I.write_ptr(s, p, ('seq', tuple(reversed(v[1]))))
    return UNIT


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def vec_retain(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    v = I.deref(s, p)
    if v[0] != 'seq' or any(x[0] != 'e' for x in v[1]):
        raise Undecided('retain on a summarised vector')
    k = s.alloc(a[1])
    states, out = [(s, ())], []
    for i in range(len(v[1])):
        nxt = []
        for s1, keep in states:
            for s2, kd, r in I.call_value(s1, a[1], [I.elem_ptr(s1, p, ('e', i))]):
                if kd != 'ret':
                    out.append((s2, kd, r))
                    continue
                for s3, b in I.branch(s2, lambda y: truth(I, y, r)):
                    nxt.append((s3, keep + ((i,) if b else ())))
        states = nxt
    for s1, keep in states:
        g = I.deref(s1, p)[1]
        s1.kill(k)
        I.write_ptr(s1, p, ('seq', tuple(g[i] for i in keep)))
        out.append((s1, 'ret', UNIT))
    return out


@model('core::slice::<impl [T]>::swap')
def slice_swap(I, s, c, a):
    def f(s):
        p = inner_ptr(I, s, a[0])
        x = I.load(s, p[1], p[2] + (('e', a[1]),))
        y = I.load(s, p[1], p[2] + (('e', a[2]),))
        I.store(s, p[1], p[2] + (('e', a[1]),), y)
        I.store(s, p[1], p[2] + (('e', a[2]),), x)
        return UNIT
    return branch(I, s, f)


@model('std::slice::<impl [T]>::concat')
def slice_concat(I, s, c, a):
    out = ()
    for g in I.ptr_seq(s, a[0]):
        if g[0] != 'e':
            raise Undecided('concat of run')
        out += I.ptr_seq(s, g[1])
    return ('seq', norm_segs(out))


# ------------------------------------------------------------------ comparisons of byte strings
def cmp_vals(I, s, a, b):
    r = gcmp(I, s, a, b)
    if r is None:
        raise Undecided('comparison of opaque values')
    return r


def gcmp(I, s, a, b):
    a, b = vderef(I, s, a), vderef(I, s, b)
    na = I.as_num(a)
    nb = I.as_num(b)
    if na is not None and nb is not None:
        if s.ask(L.lt(na, nb)):
            return -1
        return 0 if s.ask(L.eq(na, nb)) else 1
    if I.dom is not None and any(isinstance(x, tuple) and x[0] == 'obj' for x in (a, b)):
        r = I.dom.compare(I, s, 'Lt', a, b)
        if r is not None:
            return -1 if r else 0 if I.dom.compare(I, s, 'Eq', a, b) else 1
    return I.cmp_segs(s, I.ptr_seq(s, a), I.ptr_seq(s, b))


_CMPS = ('core::slice::cmp::<impl std::cmp::{} for [T]>::{}', '<std::vec::Vec as std::cmp::{}>::{}',
         'core::str::traits::<impl std::cmp::{} for str>::{}', 'std::vec::partial_eq::<impl std::cmp::{} for std::vec::Vec>::{}',
         'std::vec::partial_eq::<impl std::cmp::{} for &[T]>::{}', 'std::vec::partial_eq::<impl std::cmp::{} for [T]>::{}',
         'core::array::equality::<impl std::cmp::{} for [T; N]>::{}', 'core::array::equality::<impl std::cmp::{} for [T]>::{}',
         'core::array::equality::<impl std::cmp::{} for &[T]>::{}')


def cmp_model(tr, me, fn):
    for p in _CMPS:
        MODELS[p.format(tr, me)] = fn


cmp_model('Ord', 'cmp', lambda I, s, c, a: branch(I, s, lambda s: ORD[cmp_vals(I, s, a[0], a[1])]))
cmp_model('PartialOrd', 'partial_cmp',
          lambda I, s, c, a: branch(I, s, lambda s: some(ORD[cmp_vals(I, s, a[0], a[1])])))
cmp_model('PartialOrd', 'lt', lambda I, s, c, a: branch(I, s, lambda s: int(cmp_vals(I, s, a[0], a[1]) < 0)))
cmp_model('PartialOrd', 'le', lambda I, s, c, a: branch(I, s, lambda s: int(cmp_vals(I, s, a[0], a[1]) <= 0)))
cmp_model('PartialOrd', 'gt', lambda I, s, c, a: branch(I, s, lambda s: int(cmp_vals(I, s, a[0], a[1]) > 0)))
cmp_model('PartialOrd', 'ge', lambda I, s, c, a: branch(I, s, lambda s: int(cmp_vals(I, s, a[0], a[1]) >= 0)))


def eq_vals(I, s, a, b):
    a, b = vderef(I, s, a), vderef(I, s, b)
    na, nb = I.as_num(a), I.as_num(b)
    if na is not None and nb is not None:
        return s.ask(L.eq(na, nb))
    return I.eq_segs(s, I.ptr_seq(s, a), I.ptr_seq(s, b))


cmp_model('PartialEq', 'eq', lambda I, s, c, a: branch(I, s, lambda s: int(eq_vals(I, s, a[0], a[1]))))
cmp_model('PartialEq', 'ne', lambda I, s, c, a: branch(I, s, lambda s: 1 - int(eq_vals(I, s, a[0], a[1]))))


def bsearch(I, s, p, how):
    """search over an explicit list of elements: every element is compared with the target"""
    g = I.ptr_seq(s, p)
    if not all(x[0] == 'e' for x in g) or len(g) > 64:
        raise Undecided('search over a summarised sequence')
    from .blockcur import struct_cmp
    states = [(s, ())]
    for x in g:
        nxt = []
        el = ('snap', x[1])
        for s1, acc in states:
            if acc and acc[-1] == 'panic':
                nxt.append((s1, acc))
                continue
            if how[0] == 'val':
                nxt += [(s2, acc + (r,)) for s2, r in I.branch(s1, lambda y: struct_cmp(I, y, x[1], vderef(I, y, how[1])))]
                continue
            for s2, k, v in I.call_value(s1, how[2] if how[0] == 'key' else how[1], [el]):
                if k != 'ret':
                    nxt.append((s2, (v, 'panic')))
                    continue
                if how[0] == 'key':
                    nxt += [(s3, acc + (r,)) for s3, r in I.branch(s2, lambda y: struct_cmp(I, y, v, vderef(I, y, how[1])))]
                elif how[0] == 'pp':
                    nxt += [(s3, acc + (-1 if r else 1,)) for s3, r in I.branch(s2, lambda y: truthy(y, v))]
                else:
                    v = I.sym_variant(s2, v) if v[0] == 'symenum' else v
                    nxt.append((s2, acc + ({0: -1, 1: 0, 2: 1}[v[1]],)))
        states = nxt
    out = []
    for s1, acc in states:
        if acc and acc[-1] == 'panic':
            out.append((s1, 'panic', acc[0]))
            continue
        if any(x > y for x, y in zip(acc, acc[1:])) or acc.count(0) > 1:
            raise Undecided('search over an unordered sequence')
        low = sum(1 for x in acc if x < 0)
        if how[0] == 'pp':
            out.append((s1, 'ret', low))
        else:
            out.append((s1, 'ret', ('adt', 0 if 0 in acc else 1, (low,))))
    return out


def truthy(s, v):
    if isinstance(v, int):
        return bool(v)
    return s.ask(v) if isinstance(v, tuple) and v[0] in ('le', 'lt', 'eq', 'not', 'and', 'or') else need_bool(v)


def need_bool(v):
    raise Undecided('boolean')


@model('core::slice::<impl [T]>::binary_search')
def binary_search(I, s, c, a):
    if I.dom is not None:
        r = I.dom.binary_search(I, s, inner_ptr(I, s, a[0]), ('val', a[1]))
        if r is not None:
            return r
    return bsearch(I, s, inner_ptr(I, s, a[0]), ('val', a[1]))


@model('core::slice::<impl [T]>::binary_search_by_key')
def binary_search_by_key(I, s, c, a):
    if I.dom is not None:
        r = I.dom.binary_search(I, s, inner_ptr(I, s, a[0]), ('key', a[1], a[2]))
        if r is not None:
            return r
    return bsearch(I, s, inner_ptr(I, s, a[0]), ('key', a[1], a[2]))


@model('core::slice::<impl [T]>::binary_search_by')
def binary_search_by(I, s, c, a):
    if I.dom is not None:
        r = I.dom.binary_search(I, s, inner_ptr(I, s, a[0]), ('by', a[1]))
        if r is not None:
            return r
    return bsearch(I, s, inner_ptr(I, s, a[0]), ('by', a[1]))


@model('core::slice::<impl [T]>::partition_point')
def partition_point(I, s, c, a):
    if I.dom is not None:
        r = I.dom.binary_search(I, s, inner_ptr(I, s, a[0]), ('pp', a[1]))
        if r is not None:
            return r
    return bsearch(I, s, inner_ptr(I, s, a[0]), ('pp', a[1]))


# ------------------------------------------------------------------ iterators over sequences
# ('obj','it', ptr, lo, hi): references into *ptr;  ('obj','into', segs): owned elements, front consumed
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "<&'a mut std::vec::Vec as std::iter::IntoIterator>::into_iter",
       "<&'a std::vec::Vec as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter")
def slice_iter(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    if I.dom is not None:
        r = I.dom.make_iter(I, s, p)
        if r is not None:
            return r
    n = I.len_of(s, I.deref(s, p))
    return ('obj', 'it', p, 0, n)


@model('<std::slice::Iter as std::iter::Iterator>::next', '<std::slice::IterMut as std::iter::Iterator>::next', force=True)
def iter_next(I, s, c, a):
    def f(s):
        it = I.deref(s, a[0])
        if it[0] == 'obj' and it[1] == 'it':
            _, _, p, lo, hi = it
            if not s.ask(L.lt(lo, hi)):
                return NONE
            I.write_ptr(s, a[0], ('obj', 'it', p, L.add(lo, 1), hi))
            return some(I.elem_ptr(s, p, ('e', lo)))
        if I.dom is not None:
            r = I.dom.iter_next(I, s, a[0], it, False)
            if r is not None:
                return r
        raise Undecided('iterator %s' % (it[:2],))
    return branch(I, s, f)


@model('<std::slice::Iter as std::iter::DoubleEndedIterator>::next_back',
       '<std::slice::IterMut as std::iter::DoubleEndedIterator>::next_back', force=True)
def iter_next_back(I, s, c, a):
    def f(s):
        it = I.deref(s, a[0])
        if it[0] == 'obj' and it[1] == 'it':
            _, _, p, lo, hi = it
            if not s.ask(L.lt(lo, hi)):
                return NONE
            I.write_ptr(s, a[0], ('obj', 'it', p, lo, L.sub(hi, 1)))
            return some(I.elem_ptr(s, p, ('e', L.sub(hi, 1))))
        if I.dom is not None:
            r = I.dom.iter_next(I, s, a[0], it, True)
            if r is not None:
                return r
        raise Undecided('iterator %s' % (it[:2],))
    return branch(I, s, f)


def truth(I, s, v):
    if isinstance(v, int):
        return bool(v)
    if isinstance(v, tuple) and v[0] == 'cond':
        return s.ask(v[1])
    n = I.as_num(v)
    if n is None:
        raise Undecided('boolean %s' % (v[:1],))
    return s.ask(L.eq(n, 1))


def iter_search(kind, back):
    """any / all / position / rposition / find / rfind over references to the elements"""
    def m(I, s, c, a):
        out = []
        todo = [(s, 0)]
        while todo:
            st, n = todo.pop()
            if n > 40:
                raise Undecided('search over a long sequence')
            for s1, k, v in (iter_next_back if back else iter_next)(I, st, c, [a[0]]):
                if k != 'ret':
                    out.append((s1, k, v))
                    continue
                if v[1] == 0:
                    out.append((s1, 'ret', 1 if kind == 'all' else 0 if kind == 'any' else NONE))
                    continue
                x = v[2][0]
                for s2, k2, r in I.call_value(s1, a[1], [('snap', x) if kind == 'find' else x]):
                    if k2 != 'ret':
                        out.append((s2, k2, r))
                        continue
                    for s3, t in I.branch(s2, lambda y, r=r: truth(I, y, r)):
                        if kind == 'all':
                            hit = not t
                        else:
                            hit = t
                        if not hit:
                            todo.append((s3, n + 1))
                        elif kind in ('all', 'any'):
                            out.append((s3, 'ret', int(kind == 'any')))
                        elif kind == 'find':
                            out.append((s3, 'ret', some(x)))
                        else:
                            it = I.deref(s3, a[0])
                            out.append((s3, 'ret', some(it[4] if back else n)))
        return out
    return m


for _k, _n in (('any', 'any'), ('all', 'all'), ('position', 'position'), ('find', 'find')):
    MODELS['<std::slice::Iter as std::iter::Iterator>::' + _n] = iter_search(_k, False)
MODELS['<std::slice::Iter as std::iter::Iterator>::rposition'] = iter_search('position', True)


@model('<std::slice::Iter as std::clone::Clone>::clone', '<std::slice::ChunksExact as std::clone::Clone>::clone',
       '<std::array::IntoIter as std::clone::Clone>::clone', force=True)
def iter_clone(I, s, c, a):
    return I.deref(s, a[0])


@model('<std::vec::Vec as std::iter::IntoIterator>::into_iter',
       'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(I, s, c, a):
    if a[0][0] != 'seq':
        if I.dom is not None:
            r = I.dom.make_iter(I, s, a[0])
            if r is not None:
                return r
        raise Undecided('into_iter of %s' % a[0][0])
    return ('obj', 'into', a[0][1])


@model('std::vec::Vec::drain')
def vec_drain(I, s, c, a):
    def f(s):
        p = inner_ptr(I, s, a[0])
        g = I.ptr_seq(s, p)
        n = seq_len(g)
        r = range_of(I, s, c, a[1], n)
        if r is None:
            raise Undecided('drain range')
        lo, hi = r
        need(I, s, L.and_(L.le(lo, hi), L.le(hi, n)), 'drain range out of bounds')
        mid = I.seq_slice(s, g, lo, hi)
        setseq(I, s, p, I.seq_slice(s, g, 0, lo) + I.seq_slice(s, g, hi, n))
        return ('obj', 'into', mid)
    return branch(I, s, f)


@model('<std::vec::IntoIter as std::iter::Iterator>::next', '<std::vec::Drain as std::iter::Iterator>::next',
       '<std::array::IntoIter as std::iter::Iterator>::next', force=True)
def into_next(I, s, c, a):
    def f(s):
        it = I.deref(s, a[0])
        if it[:2] != ('obj', 'into'):
            if I.dom is not None:
                r = I.dom.iter_next(I, s, a[0], it, False)
                if r is not None:
                    return r
            raise Undecided('iterator %s' % (it[:2],))
        g = it[2]
        if not g:
            return NONE
        if g[0][0] != 'e':
            if g[0][0] == 'run' and I.dom is not None:
                r = I.dom.run_next(I, s, a[0], g)
                if r is not None:
                    return r
            if s.ask(L.eq(seq_len(g), 0)):
                return NONE
            v = I.seq_get(s, g, 0)
            I.write_ptr(s, a[0], ('obj', 'into', I.seq_slice(s, g, 1, seq_len(g))))
            return some(v)
        I.write_ptr(s, a[0], ('obj', 'into', g[1:]))
        return some(g[0][1])
    return branch(I, s, f)


@model('<std::vec::IntoIter as std::iter::DoubleEndedIterator>::next_back',
       '<std::vec::Drain as std::iter::DoubleEndedIterator>::next_back',
       '<std::array::IntoIter as std::iter::DoubleEndedIterator>::next_back', force=True)
def into_next_back(I, s, c, a):
    def f(s):
        it = I.deref(s, a[0])
        if it[:2] != ('obj', 'into'):
            raise Undecided('iterator')
        g = it[2]
        if not g:
            return NONE
        if g[-1][0] != 'e':
            raise Undecided('next_back over run')
        I.write_ptr(s, a[0], ('obj', 'into', g[:-1]))
        return some(g[-1][1])
    return branch(I, s, f)


@model('<std::slice::Iter as std::iter::Iterator>::size_hint', '<std::vec::IntoIter as std::iter::Iterator>::size_hint',
       '<std::vec::Drain as std::iter::Iterator>::size_hint', '<std::slice::ChunksExact as std::iter::Iterator>::size_hint')
def size_hint(I, s, c, a):
    return ('tup', (('top', 'hint'), ('top', 'hint')))


@model('core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks')
def chunks_exact(I, s, c, a):
    return ('obj', 'chunks', I.ptr_seq(s, a[0]), a[1])


@model('<std::slice::ChunksExact as std::iter::Iterator>::next', '<std::slice::Chunks as std::iter::Iterator>::next', force=True)
def chunks_next(I, s, c, a):
    def f(s):
        it = I.deref(s, a[0])
        _, _, g, w = it
        if not s.ask(L.le(w, seq_len(g))):
            return NONE
        x, y = I.seq_cut(s, g, w)
        I.write_ptr(s, a[0], ('obj', 'chunks', y, w))
        return some(('snap', ('seq', x)))
    return branch(I, s, f)


@model('std::slice::Iter::make_slice', 'std::slice::Iter::as_slice', 'std::vec::IntoIter::as_slice')
def iter_as_slice(I, s, c, a):
    it = vderef(I, s, a[0])
    if it[:2] == ('obj', 'into'):
        return ('snap', ('seq', it[2]))
    return sub_ptr(I, s, it[2], it[3], it[4], False)


# draining an arbitrary iterator value into owned elements
def drain_elems(I, s, ty, v, cap=64):
    """[(state, segs)] of all elements produced by iterator v (by value) of type ty"""
    if I.dom is not None:
        r = I.dom.drain_iter(I, s, ty, v)
        if r is not None:
            return r
    t = I.T[ty] if ty is not None else {}
    path = t.get('path', '')
    if isinstance(v, tuple) and v[0] == 'seq':
        return [(s, v[1])]
    if isinstance(v, tuple) and v[0] == 'obj' and v[1] == 'into':
        return [(s, v[2])]
    if isinstance(v, tuple) and v[0] in ('ref', 'snap') and path not in ('std::iter::Map',):
        tv = vderef(I, s, v)
        if isinstance(tv, tuple) and tv[0] == 'seq':
            v = ('obj', 'it', inner_ptr(I, s, v), 0, seq_len(tv[1]))
    if isinstance(v, tuple) and v[0] == 'obj' and v[1] == 'it':
        _, _, p, lo, hi = v
        tv = I.deref(s, p)
        if tv[0] == 'seq':
            if all(x[0] == 'e' for x in tv[1]) and isinstance(lo, int) and isinstance(hi, int):
                return [(s, tuple(('e', I.elem_ptr(s, p, ('e', i))) for i in range(lo, hi)))]
            out = []
            for s2, g in I.branch(s, lambda s2: I.seq_slice(s2, tv[1], lo, hi)):
                r = []
                for x in g:
                    if x[0] == 'e':
                        r.append(('e', ('snap', x[1])))
                    elif x[0] == 'run':
                        r.append(('run', x[1], x[2], ('snap', x[3])))
                    elif x[0] == 's':
                        r.append(('refs', x))
                    else:
                        r.append(('refs', x))
                out.append((s2, tuple(r)))
            return out
    if isinstance(v, tuple) and v[0] == 'obj' and v[1] == 'chunks':
        _, _, g, w = v
        r = []
        rest = g
        st = s
        while rest:
            h = rest[0]
            if h[0] == 'frun' and h[3] == w:
                r.append(('run', h[1], h[2], ('snap', ('seq', h[4]))))
                rest = rest[1:]
                continue
            n = st.facts.value(seq_len(rest))
            if n is not None and n < w:
                break
            x, rest2 = I.seq_cut(st, rest, w)
            r.append(('e', ('snap', ('seq', x))))
            rest = rest2
            if len(r) > cap:
                raise Undecided('long chunk iteration')
        return [(st, tuple(r))]
    if isinstance(v, tuple) and v[0] == 'adt':
        ta = [x for x in t.get('args', []) if isinstance(x, int)]
        if path in ('std::iter::Copied', 'std::iter::Cloned'):
            out = []
            for s2, g in drain_elems(I, s, ta[0], v[2][0], cap):
                r = []
                for x in g:
                    if x[0] == 'e':
                        r.append(('e', I.deref(s2, x[1])))
                    elif x[0] == 'run':
                        r.append(('run', x[1], x[2], I.deref(s2, x[3])))
                    elif x[0] == 'refs':
                        r.append(x[1])
                    else:
                        raise Undecided('copies of %s' % x[0])
                out.append((s2, norm_segs(tuple(r))))
            return out
        if path in ('std::iter::Map', 'std::iter::FilterMap', 'std::iter::FlatMap', 'std::iter::Flatten'):
            inner, fn = v[2][0], (v[2][1] if len(v[2]) > 1 else None)
            ity = ta[0]
            if path == 'std::iter::FlatMap':
                # FlatMap { inner: FlattenCompat { iter: Fuse { iter: Some(Map { iter, f }) }, .. } }
                w = v
                for _ in range(8):
                    if isinstance(w, tuple) and w[0] == 'adt' and len(w[2]) == 2 and isinstance(w[2][1], tuple) and \
                            w[2][1][0] in ('fn', 'clo', 'ref', 'fnptr'):
                        break
                    if isinstance(w, tuple) and w[0] == 'adt' and w[2]:
                        w = w[2][0]
                    else:
                        raise Undecided('flat_map shape')
                inner, fn = w[2]
            states = []
            for s2, g in drain_elems(I, s, ity, inner, cap):
                states += map_segs(I, s2, g, fn, path)
            return states
        if path == 'std::iter::Chain':
            out = []
            a, b = v[2]
            for s2, g in drain_elems(I, s, ta[0], a[2][0], cap) if a[1] == 1 else [(s, ())]:
                for s3, h in drain_elems(I, s2, ta[1], b[2][0], cap) if b[1] == 1 else [(s2, ())]:
                    out.append((s3, g + h))
            return out
        if path in ('std::iter::Enumerate', 'std::iter::Take', 'std::iter::Skip', 'std::iter::Zip', 'std::iter::Filter'):
            out = []
            for s2, g in drain_elems(I, s, ta[0], v[2][0], cap):
                if g and g[0] == 'panic':
                    out.append((s2, g))
                    continue
                if any(x[0] != 'e' for x in g):
                    raise Undecided('iteration over a summarised %s' % path)
                if path == 'std::iter::Enumerate':
                    out.append((s2, tuple(('e', ('tup', (L.add(v[2][1], i), x[1]))) for i, x in enumerate(g))))
                elif path == 'std::iter::Zip':
                    for s3, h in drain_elems(I, s2, ta[1], v[2][1], cap):
                        if any(x[0] != 'e' for x in h):
                            raise Undecided('iteration over a summarised zip')
                        out.append((s3, tuple(('e', ('tup', (x[1], y[1]))) for x, y in zip(g, h))))
                elif path == 'std::iter::Filter':
                    work = [(s2, (), 0)]
                    while work:
                        s3, acc, i = work.pop()
                        if i == len(g):
                            out.append((s3, acc))
                            continue
                        for s4, kd, r in I.call_value(s3, v[2][1], [('snap', g[i][1])]):
                            if kd != 'ret':
                                out.append((s4, ('panic', r)))
                                continue
                            for s5, b in I.branch(s4, lambda y: truth(I, y, r)):
                                work.append((s5, acc + ((g[i],) if b else ()), i + 1))
                else:
                    n = I.as_num(v[2][1])
                    if not isinstance(n, int):
                        raise Undecided('iteration over a symbolic %s' % path)
                    out.append((s2, g[:n] if path == 'std::iter::Take' else g[n:]))
            return out
        if path == 'std::iter::Rev':
            return [(s2, tuple(reversed(g))) for s2, g in drain_elems(I, s, ta[0], v[2][0], cap)]
        if path == 'std::iter::Once' or path == 'std::option::IntoIter' or path == 'std::option::Option':
            w = v
            while isinstance(w, tuple) and w[0] == 'adt' and not (w[1] == 1 or not w[2]):
                w = w[2][0]
            return [(s, (('e', w[2][0]),) if w[1] == 1 else ())]
    # generic: call next repeatedly
    m = I.tmeth(ty, 'next')
    if m is None:
        raise Undecided('iteration over %s' % (t.get('s'),))
    k = s.alloc(v)
    work = [(s, ())]
    out = []
    while work:
        s2, acc = work.pop()
        if len(acc) > cap:
            raise Undecided('long iteration')
        for s3, kd, r in I.call(s2, m, [('ref', k, ())]):
            if kd != 'ret':
                out.append((s3, ('panic', r)))
                continue
            if isinstance(r, tuple) and r[0] == 'symenum':
                r = I.sym_variant(s3, r)
            if r[1] == 0:
                s3.kill(k)
                out.append((s3, acc))
            else:
                work.append((s3, acc + (('e', r[2][0]),)))
    return out


def map_segs(I, s, g, fn, path):
    states = [(s, ())]
    for x in g:
        nxt = []
        for s2, acc in states:
            if acc and acc[0] == 'panic':
                nxt.append((s2, acc))
                continue
            if x[0] not in ('e', 'run'):
                raise Undecided('map over %s' % x[0])
            if fn is None:
                rs = [(s2, 'ret', x[-1])]
            else:
                n0 = len(s2.log)
                rs = I.call_value(s2, fn, [x[1] if x[0] == 'e' else x[3]])
                if x[0] == 'run' and len(rs) != 1:
                    raise Undecided('branching map over run')
            for s3, kd, v in rs:
                if kd != 'ret':
                    nxt.append((s3, ('panic', v)))
                    continue
                if path == 'std::iter::FilterMap':
                    if v[0] == 'symenum':
                        v = I.sym_variant(s3, v)
                    if v[1] == 0:
                        if x[0] == 'run':
                            pass
                        nxt.append((s3, acc))
                        continue
                    v = v[2][0]
                if path in ('std::iter::FlatMap', 'std::iter::Flatten'):
                    sub = I.ptr_seq(s3, v) if v[0] != 'obj' else v[2]
                    if x[0] == 'e':
                        nxt.append((s3, acc + sub))
                    else:
                        w = seq_len(sub)
                        nxt.append((s3, acc + (('frun', x[1], x[2], w, sub),)))
                    continue
                if x[0] == 'e':
                    nxt.append((s3, acc + (('e', v),)))
                else:
                    nxt.append((s3, acc + (('run', x[1], x[2], v),)))
        states = nxt
    return states


@model('<std::vec::Vec as std::iter::Extend>::extend', '<std::collections::BinaryHeap as std::iter::Extend>::extend')
def vec_extend(I, s, c, a):
    ta = tyargs(I, c)
    ity = ta[-1]
    if I.T[ity].get('k') == 'ref' or I.T[ity].get('path', '').startswith(('std::slice::Iter',)):
        copy = True
    else:
        copy = False
    out = []
    for s2, g in drain_elems(I, s, ity, a[1]):
        if g and g[0] == 'panic':
            out.append((s2, 'panic', g[1]))
            continue
        if copy:
            et = I.T[ta[0]]
            if et.get('k') != 'ref':
                g = tuple(('e', I.deref(s2, x[1])) if x[0] == 'e' else x[1] if x[0] == 'refs' else
                          ('run', x[1], x[2], I.deref(s2, x[3])) for x in g)
        setseq(I, s2, a[0], I.ptr_seq(s2, a[0]) + g)
        out.append((s2, 'ret', UNIT))
    return out


@model('<std::vec::Vec as std::iter::FromIterator>::from_iter', '<std::collections::BinaryHeap as std::iter::FromIterator>::from_iter')
def vec_from_iter(I, s, c, a):
    ta = tyargs(I, c)
    out = []
    for s2, g in drain_elems(I, s, ta[-1], a[0]):
        if g and g[0] == 'panic':
            out.append((s2, 'panic', g[1]))
        else:
            out.append((s2, 'ret', ('seq', norm_segs(g))))
    return out


def lazy_elems(I, s, ity, v, stop, cap=4096):
    """[(state, elements, None | the element at which stop holds, None | panic)] drawing elements one by one"""
    t = I.T[ity]
    out = []
    if isinstance(v, tuple) and v[0] == 'adt' and t.get('path') in ('std::iter::Map', 'std::iter::FilterMap'):
        inner, fn = v[2][0], v[2][1]
        fmap = t['path'] == 'std::iter::FilterMap'
        k = s.alloc(fn)
        ita = [x for x in t.get('args', []) if isinstance(x, int)][0]
        for s1, g in drain_elems(I, s, ita, inner, cap):
            if g and g[0] == 'panic':
                out.append((s1, (), None, g[1]))
                continue
            if any(x[0] != 'e' for x in g):
                raise Undecided('collecting a summarised iterator')
            work = [(s1, (), 0)]
            while work:
                s2, acc, i = work.pop()
                if i == len(g):
                    out.append((s2, acc, None, None))
                    continue
                for s3, kd, r in I.call_value(s2, s2.mem[k], [g[i][1]]):
                    if kd != 'ret':
                        out.append((s3, acc, None, r))
                        continue
                    if isinstance(r, tuple) and r[0] == 'symenum':
                        r = I.sym_variant(s3, r)
                    if fmap:
                        if r[1] == 0:
                            work.append((s3, acc, i + 1))
                            continue
                        r = r[2][0]
                        if isinstance(r, tuple) and r[0] == 'symenum':
                            r = I.sym_variant(s3, r)
                    if stop(r):
                        rest = [x for x in g[i + 1:]]
                        if I.dom is not None:
                            for x in rest:
                                I.dom.drop_opaque(I, s3, x[1], None)
                        out.append((s3, acc, r, None))
                    else:
                        work.append((s3, acc + (('e', r),), i + 1))
        return out
    m = I.tmeth(ity, 'next')
    if m is None:
        for s1, g in drain_elems(I, s, ity, v, cap):
            if g and g[0] == 'panic':
                out.append((s1, (), None, g[1]))
                continue
            acc = ()
            for x in g:
                if x[0] != 'e':
                    raise Undecided('collecting a summarised iterator')
                r = x[1]
                if isinstance(r, tuple) and r[0] == 'symenum':
                    r = I.sym_variant(s1, r)
                if stop(r):
                    out.append((s1, acc, r, None))
                    break
                acc += (('e', r),)
            else:
                out.append((s1, acc, None, None))
        return out
    k = s.alloc(v)
    work = [(s, ())]
    while work:
        s2, acc = work.pop()
        if len(acc) > cap:
            raise Undecided('long iteration')
        for s3, kd, r in I.call(s2, m, [('ref', k, ())]):
            if kd != 'ret':
                out.append((s3, acc, None, r))
                continue
            if isinstance(r, tuple) and r[0] == 'symenum':
                r = I.sym_variant(s3, r)
            if r[1] == 0:
                out.append((s3, acc, None, None))
                continue
            x = r[2][0]
            if isinstance(x, tuple) and x[0] == 'symenum':
                x = I.sym_variant(s3, x)
            if stop(x):
                out.append((s3, acc, x, None))
            else:
                work.append((s3, acc + (('e', x),)))
    return out


def collect_into(good, bad):
    def m(I, s, c, a):
        ta = tyargs(I, c)
        vt = I.T[ta[-2]]
        if vt.get('path') not in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BinaryHeap') and vt.get('s') != '()':
            raise Undecided('collecting into %s' % vt.get('s'))
        out = []
        for s1, acc, last, pan in lazy_elems(I, s, ta[-1], a[0], lambda r: r[1] == bad):
            if pan is not None:
                out.append((s1, 'panic', pan))
            elif last is not None:
                if I.dom is not None:
                    for x in acc:
                        I.dom.drop_opaque(I, s1, x[1], None)
                out.append((s1, 'ret', last))
            else:
                w = ('seq', norm_segs(tuple(('e', x[1][2][0]) for x in acc))) if vt.get('s') != '()' else UNIT
                out.append((s1, 'ret', ('adt', good, (w,))))
        return out
    return m


MODELS['<std::result::Result as std::iter::FromIterator>::from_iter'] = collect_into(0, 1)
MODELS['<std::option::Option as std::iter::FromIterator>::from_iter'] = collect_into(1, 0)
MODELS.setdefault('!force', set()).update(n for n in MODELS if n.endswith('as std::iter::FromIterator>::from_iter'))


# ------------------------------------------------------------------ integers
@model(*['core::num::<impl %s>::to_be_bytes' % t for t in ('u16', 'u32', 'u64', 'usize')])
def to_be(I, s, c, a):
    return nbytes(I, s, 'be', c, a[0])


@model(*['core::num::<impl %s>::to_le_bytes' % t for t in ('u16', 'u32', 'u64', 'usize')])
def to_le(I, s, c, a):
    return nbytes(I, s, 'le', c, a[0])


W = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16}


def int_of(c):
    p = c.get('rpath') or c['path']
    return p.split('<impl ')[1].split('>')[0]


def nbytes(I, s, order, c, v):
    n = W[int_of(c)]
    if isinstance(v, int):
        return ('seq', tuple(explode(('n', order, n, v))))
    return ('seq', (('n', order, n, v),))


@model(*['core::num::<impl %s>::from_be_bytes' % t for t in ('u16', 'u32', 'u64', 'usize')])
def from_be(I, s, c, a):
    return frombytes(I, s, 'be', c, a[0])


@model(*['core::num::<impl %s>::from_le_bytes' % t for t in ('u16', 'u32', 'u64', 'usize')])
def from_le(I, s, c, a):
    return frombytes(I, s, 'le', c, a[0])


def frombytes(I, s, order, c, v):
    n = W[int_of(c)]
    return dec_int(I, s, I.ptr_seq(s, v), order, n)


def dec_int(I, s, g, order, n):
    g = norm_segs(g)
    if len(g) == 1 and g[0][0] == 'n' and g[0][1] == order and g[0][2] == n:
        return g[0][3]
    ee = [x for y in g for x in explode(y)]
    if len(ee) == n and all(x[0] == 'e' and isinstance(x[1], int) for x in ee):
        return int.from_bytes(bytes(x[1] for x in ee), 'big' if order == 'be' else 'little')
    # a canonical name for the integer encoded by these bytes
    at = ('dec', order, n, g)
    s.range(at, 0, (1 << (8 * n)) - 1)
    return L.atom(at)


def num(I, v):
    n = I.as_num(v)
    if n is None:
        raise Undecided('arithmetic on unknown')
    return n


INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i32': 32, 'i64': 64, 'isize': 64}


def _imax(c):
    t = int_of(c)
    return (1 << INTS[t]) - 1 if t[0] == 'u' else (1 << (INTS[t] - 1)) - 1


def checked(op):
    def m(I, s, c, a):
        def f(s):
            if isinstance(a[0], tuple) and a[0][0] == 'obj':
                r = I.dom.checked(I, s, op, a[0], a[1])
                if r is not None:
                    return r
            x, y = num(I, a[0]), num(I, a[1])
            t = {'k': 'int', 'w': INTS[int_of(c)], 'signed': False}
            r = I.arithop(s, op, x, y, t)
            if isinstance(r, tuple) and r[0] == 'top':
                raise Undecided('checked arithmetic')
            if not s.ask(L.le(r, _imax(c))):
                return NONE
            if not s.ask(L.le(0, r)):
                return NONE
            return some(r)
        return branch(I, s, f)
    return m


def saturating(op):
    def m(I, s, c, a):
        def f(s):
            if isinstance(a[0], tuple) and a[0][0] == 'obj' and I.dom is not None:
                r = I.dom.checked(I, s, op, a[0], a[1])
                if r is not None:
                    return r[2][0] if r[1] == 1 else 0
            x, y = num(I, a[0]), num(I, a[1])
            t = {'k': 'int', 'w': INTS[int_of(c)], 'signed': False}
            r = I.arithop(s, op, x, y, t)
            if isinstance(r, tuple) and r[0] == 'top':
                raise Undecided('saturating arithmetic')
            if not s.ask(L.le(r, _imax(c))):
                return _imax(c)
            if not s.ask(L.le(0, r)):
                return 0
            return r
        return branch(I, s, f)
    return m


def wrapping(op):
    def m(I, s, c, a):
        def f(s):
            x, y = num(I, a[0]), num(I, a[1])
            t = {'k': 'int', 'w': INTS[int_of(c)], 'signed': False}
            r = I.arithop(s, op, x, y, t)
            if isinstance(r, tuple) and r[0] == 'top':
                return r
            if not s.ask(L.le(r, _imax(c))):
                return L.sub(r, _imax(c) + 1) if op != 'Mul' else ('top', 'wrapped')
            if not s.ask(L.le(0, r)):
                return L.add(r, _imax(c) + 1)
            return r
        return branch(I, s, f)
    return m


for _t in INTS:
    for _o in ('add', 'sub', 'mul'):
        MODELS['core::num::<impl %s>::checked_%s' % (_t, _o)] = checked(_o.capitalize())
        MODELS['core::num::<impl %s>::saturating_%s' % (_t, _o)] = saturating(_o.capitalize())
        MODELS['core::num::<impl %s>::wrapping_%s' % (_t, _o)] = wrapping(_o.capitalize())


@model(*['core::num::<impl %s>::div_ceil' % t for t in INTS])
def div_ceil(I, s, c, a):
    x, y = num(I, a[0]), num(I, a[1])
    q = I.divrem(s, 'Div', L.add(x, L.sub(y, 1)) if isinstance(y, int) else None, y, None) if isinstance(y, int) else None
    if q is None:
        raise Undecided('div_ceil')
    return q


def next_mult(I, s, c, a, opt):
    def f(s):
        x, y = num(I, a[0]), num(I, a[1])
        if not isinstance(y, int):
            raise Undecided('next_multiple_of')
        q = I.divrem(s, 'Div', L.add(x, y - 1), y, None)
        r = L.scale(q, y)
        if opt:
            return some(r) if s.ask(L.le(r, _imax(c))) else NONE
        return r
    return branch(I, s, f)


for _t in INTS:
    MODELS['core::num::<impl %s>::next_multiple_of' % _t] = lambda I, s, c, a: next_mult(I, s, c, a, False)
    MODELS['core::num::<impl %s>::checked_next_multiple_of' % _t] = lambda I, s, c, a: next_mult(I, s, c, a, True)


@model('std::num::NonZero::get', 'std::num::NonZero::new_unchecked')
def nz_get(I, s, c, a):
    v = vderef(I, s, a[0])
    return peel(v)


@model('<std::num::NonZero as std::clone::Clone>::clone')
def nz_clone(I, s, c, a):
    return peel(vderef(I, s, a[0]))


@model('std::num::NonZero::new')
def nz_new(I, s, c, a):
    def f(s):
        n = num(I, a[0])
        return NONE if s.ask(L.eq(n, 0)) else some(a[0])
    return branch(I, s, f)


def minmax(mx):
    def m(I, s, c, a):
        def f(s):
            x, y = a
            nx, ny = I.as_num(x), I.as_num(y)
            if nx is None or ny is None:
                r = I.dom.compare(I, s, 'Le', x, y) if I.dom is not None else None
                if r is None:
                    raise Undecided('min/max of unknown')
                return (y if r else x) if mx else (x if r else y)
            if mx:
                return x if s.ask(L.lt(ny, nx)) else y
            return x if s.ask(L.le(nx, ny)) else y
        return branch(I, s, f)
    return m


MODELS['std::intrinsics::integer_min'] = minmax(False)
MODELS['std::intrinsics::integer_max'] = minmax(True)


@model('std::intrinsics::saturating_add')
def i_sat_add(I, s, c, a):
    return L.add(num(I, a[0]), num(I, a[1]))


@model('std::intrinsics::saturating_sub')
def i_sat_sub(I, s, c, a):
    def f(s):
        x, y = num(I, a[0]), num(I, a[1])
        return L.sub(x, y) if s.ask(L.le(y, x)) else 0
    return branch(I, s, f)


for _t in INTS:
    for _n in ('ilog2', 'trailing_zeros', 'leading_zeros', 'count_ones', 'is_power_of_two', 'pow', 'next_power_of_two'):
        def _m(I, s, c, a, _n=_n):
            if not isinstance(a[0], int):
                raise Undecided(_n)
            x = a[0]
            w = INTS[int_of(c)]
            return {'ilog2': lambda: x.bit_length() - 1, 'trailing_zeros': lambda: (x & -x).bit_length() - 1 if x else w,
                    'leading_zeros': lambda: w - x.bit_length(), 'count_ones': lambda: bin(x).count('1'),
                    'is_power_of_two': lambda: int(x > 0 and x & (x - 1) == 0), 'pow': lambda: x ** a[1],
                    'next_power_of_two': lambda: 1 << max(0, (x - 1).bit_length())}[_n]()
        MODELS['core::num::<impl %s>::%s' % (_t, _n)] = _m


@model('std::array::<impl std::convert::TryFrom for [T; N]>::try_from', force=True)
def arr_try_from(I, s, c, a):
    ta = tyargs(I, c)
    n = None
    for x in c.get('rtargs') or c.get('targs') or []:
        if isinstance(x, (list, tuple)) or isinstance(x, dict):
            n = x
        elif isinstance(x, str):
            n = x
    k = const_arg(n)

    def f(s):
        g = I.ptr_seq(s, a[0])
        if k is None:
            return ok(('seq', g))
        if s.ask(L.eq(seq_len(g), k)):
            return ok(('seq', g))
        return err(('adt', 0, (UNIT,)))
    return branch(I, s, f)


def const_arg(n):
    if isinstance(n, int):
        return n
    if isinstance(n, str):
        import re
        m = re.match(r'^\D*(\d+)', n)
        return int(m.group(1)) if m else None
    if isinstance(n, (list, tuple)) and n:
        return const_arg(n[-1])
    return None


# ------------------------------------------------------------------ misc
@model('std::intrinsics::cold_path', 'core::num::<impl usize>::unchecked_add::precondition_check',
       'core::num::<impl usize>::unchecked_sub::precondition_check')
def nop(I, s, c, a):
    return UNIT


def panics(I, s, c, a):
    msg = ''
    if a and isinstance(a[0], tuple) and a[0][0] == 'snap' and a[0][1][0] == 'strlit':
        msg = ': ' + a[0][1][1]
    return [(s, 'panic', 'explicit panic%s%s' % (msg, at(I)))]


for _n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt',
           'core::panicking::unreachable_default_msg', 'std::rt::begin_panic', 'std::result::unwrap_failed::unwrap_failed_inner',
           'core::option::expect_failed', 'core::option::unwrap_failed', 'std::option::unwrap_failed', 'std::option::expect_failed',
           'core::panicking::assert_failed', 'std::result::unwrap_failed', 'core::panicking::unreachable_display',
           'core::slice::index::slice_index_fail', 'core::panicking::panic_nounwind', 'core::panicking::panic_display',
           'core::panicking::panic_explicit'):
    MODELS[_n] = panics
    FORCE.add(_n)


@model('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'std::fmt::Arguments::new',
       'std::fmt::Arguments::new_v1', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str',
       'std::fmt::format', 'std::fmt::Arguments::from_str_nonconst')
def fmt(I, s, c, a):
    return ('top', 'fmt')


@model('std::intrinsics::ctpop')
def ctpop(I, s, c, a):
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    raise Undecided('ctpop')


# ------------------------------------------------------------------ binary heap over explicit elements
@model('std::collections::BinaryHeap::new', 'std::collections::BinaryHeap::with_capacity')
def heap_new(I, s, c, a):
    return ('seq', ())


@model('std::option::Option::take', force=False)
def opt_take(I, s, c, a):
    v = I.deref(s, a[0])
    I.write_ptr(s, a[0], NONE)
    return v


@model('std::mem::take')
def mem_take(I, s, c, a):
    v = I.deref(s, a[0])
    if v[0] == 'seq':
        I.write_ptr(s, a[0], ('seq', ()))
        return v
    raise Undecided('mem::take')


@model('std::mem::replace', 'std::ptr::replace', force=True)
def mem_replace(I, s, c, a):
    v = I.deref(s, a[0])
    I.write_ptr(s, a[0], a[1])
    return v


@model('std::mem::swap', force=True)
def mem_swap(I, s, c, a):
    x, y = I.deref(s, a[0]), I.deref(s, a[1])
    I.write_ptr(s, a[0], y)
    I.write_ptr(s, a[1], x)
    return UNIT


@model('std::ptr::read', force=True)
def ptr_read(I, s, c, a):
    return I.deref(s, a[0])


@model('std::ptr::write', force=True)
def ptr_write(I, s, c, a):
    I.write_ptr(s, a[0], a[1])
    return UNIT


@model('std::mem::forget')
def mem_forget(I, s, c, a):
    return UNIT


@model('std::mem::drop', force=True)
def mem_drop(I, s, c, a):
    ty = tyargs(I, c)
    if not ty or not I.needs_drop(ty[0]):
        return UNIT
    return I.drop_place(s, s.alloc(a[0]), (), ty[0])


@model('std::mem::ManuallyDrop::new', force=True)
def manually_new(I, s, c, a):
    return ('adt', 0, (a[0],))


@model('std::mem::ManuallyDrop::into_inner', force=True)
def manually_inner(I, s, c, a):
    return a[0][2][0]


@model('std::mem::ManuallyDrop::drop', force=True)
def manually_drop(I, s, c, a):
    ty = tyargs(I, c)
    p = a[0]
    if not ty or not I.needs_drop(ty[0]) or p[0] != 'ref':
        return UNIT
    return I.drop_place(s, p[1], p[2] + (('f', 0),), ty[0])


# ------------------------------------------------------------------ byte writers over Vec
@model('alloc::io::impls::<impl std::io::Write for std::vec::Vec>::write', force=True)
def vec_write(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    g = I.ptr_seq(s, a[1])
    setseq(I, s, p, I.ptr_seq(s, p) + g)
    return ok(seq_len(g))


@model('alloc::io::impls::<impl std::io::Write for std::vec::Vec>::write_all', force=True)
def vec_write_all(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    setseq(I, s, p, I.ptr_seq(s, p) + I.ptr_seq(s, a[1]))
    return ok(UNIT)


@model('alloc::io::impls::<impl std::io::Write for std::vec::Vec>::flush', force=True)
def vec_flush(I, s, c, a):
    return ok(UNIT)


# ------------------------------------------------------------------ BinaryHeap: an unordered collection; every removal takes a maximum
def heap_lt(I, s, c, x, y):
    """[(state, x < y)] by the element type's own order"""
    t = tyargs(I, c)
    m = I.tmeth(t[0], 'partial_cmp') if t else None
    partial = m is not None
    if m is None:
        m = I.tmeth(t[0], 'cmp') if t else None
        if m is None:
            raise Undecided('order of heap elements')
    out = []
    for s1, k, r in I.call(s, m, [('snap', x), ('snap', y)]):
        if k != 'ret':
            out.append((s1, 'panic', r))
            continue
        r = I.sym_variant(s1, r) if r[0] == 'symenum' else r
        if partial:
            if r[1] != 1:
                raise Undecided('incomparable heap elements')
            r = r[2][0]
            r = I.sym_variant(s1, r) if r[0] == 'symenum' else r
        if r[0] != 'adt':
            raise Undecided('incomparable heap elements')
        out.append((s1, 'ret', r[1] == 0))
    return out


def heap_elems(I, s, p):
    g = I.ptr_seq(s, p)
    if any(x[0] != 'e' for x in g):
        raise Undecided('heap contents')
    return [x[1] for x in g]


def heap_max(I, s, c, es):
    """[(state, [indices of the maxima])]"""
    work = [(s, 1, [0])]
    out = []
    while work:
        s1, i, best = work.pop()
        if i == len(es):
            out.append((s1, 'ret', best))
            continue
        for s2, k, lt in heap_lt(I, s1, c, es[best[0]], es[i]):
            if k != 'ret':
                out.append((s2, k, lt))
            elif lt:
                work.append((s2, i + 1, [i]))
            else:
                for s3, k3, gt in heap_lt(I, s2, c, es[i], es[best[0]]):
                    if k3 != 'ret':
                        out.append((s3, k3, gt))
                    else:
                        work.append((s3, i + 1, best if gt else best + [i]))
    return out


def heap_pick(I, s, c, p, then):
    es = heap_elems(I, s, p)
    if not es:
        return [(s, 'ret', NONE)]
    out = []
    for s1, k, best in heap_max(I, s, c, es):
        if k != 'ret':
            out.append((s1, k, best))
            continue
        for i in best:
            s2 = s1.copy() if len(best) > 1 else s1
            out.append((s2, 'ret', then(s2, es, i)))
    return out


@model('std::collections::BinaryHeap::push')
def heap_push(I, s, c, a):
    return vec_push(I, s, c, a)


@model('std::collections::BinaryHeap::pop')
def heap_pop(I, s, c, a):
    p = inner_ptr(I, s, a[0])

    def then(s, es, i):
        setseq(I, s, p, tuple(('e', x) for j, x in enumerate(es) if j != i))
        return some(es[i])
    return heap_pick(I, s, c, p, then)


@model('std::collections::BinaryHeap::peek')
def heap_peek(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    return heap_pick(I, s, c, p, lambda s, es, i: some(I.elem_ptr(s, p, ('e', i))))


@model('std::collections::BinaryHeap::peek_mut')
def heap_peek_mut(I, s, c, a):
    p = inner_ptr(I, s, a[0])
    return heap_pick(I, s, c, p, lambda s, es, i: some(('obj', 'peekmut', p, i)))


@model('<std::collections::binary_heap::PeekMut as std::ops::Deref>::deref',
       '<std::collections::binary_heap::PeekMut as std::ops::DerefMut>::deref_mut')
def peekmut_deref(I, s, c, a):
    o = vderef(I, s, a[0])
    if o[:2] != ('obj', 'peekmut'):
        raise Undecided('PeekMut')
    return I.elem_ptr(s, o[2], ('e', o[3]))


@model('std::collections::binary_heap::PeekMut::pop')
def peekmut_pop(I, s, c, a):
    o = a[0]
    if o[:2] != ('obj', 'peekmut'):
        raise Undecided('PeekMut')
    es = heap_elems(I, s, o[2])
    setseq(I, s, o[2], tuple(('e', x) for j, x in enumerate(es) if j != o[3]))
    return es[o[3]]


@model('std::collections::BinaryHeap::len', 'std::collections::BinaryHeap::is_empty')
def heap_len(I, s, c, a):
    n = len(heap_elems(I, s, inner_ptr(I, s, a[0])))
    return n if (c.get('rpath') or c['path']).endswith('len') else int(n == 0)


@model('std::collections::BinaryHeap::clear')
def heap_clear(I, s, c, a):
    setseq(I, s, inner_ptr(I, s, a[0]), ())
    return UNIT


@model('std::collections::BinaryHeap::reserve', 'std::collections::BinaryHeap::shrink_to_fit')
def heap_reserve(I, s, c, a):
    return UNIT


@model('<std::collections::BinaryHeap as std::convert::From>::from', 'std::collections::BinaryHeap::into_vec')
def heap_from(I, s, c, a):
    v = a[0]
    if v[0] != 'seq' or any(x[0] != 'e' for x in v[1]):
        raise Undecided('heap conversion')
    if (c.get('rpath') or c['path']).endswith('into_vec') and len(v[1]) > 1:
        raise Undecided('order of a heap turned into a vector')
    return v
