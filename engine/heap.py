"""Raw memory: allocations made through std::alloc, the slices made from them and typed views of their bytes.

An allocation is a cell holding byte segments; ghost ('alloc', cell) = (size, align, state). Every access goes through
a slice whose extent was checked against the allocation when it was made."""
from . import lin as L, grenad as G
from .core import *
from .models import inner_ptr, vderef, cmp_vals, tyargs

ISIZE = (1 << 63) - 1

class Heap:
    """mixin for a Dom; self.P is needed"""
    oom = False           # explore failing allocations

    def init_heap(self):
        self.found = []
        self.allocs = 0

    def undefined(self, I, s, text):
        if G.feasible(s):
            self.found.append((text, s.notes[-3:] if hasattr(s, 'notes') else ()))
        raise Infeasible()

    def leaks(self, s, *vals):
        """live allocations nothing refers to any more"""
        live = set(k[1] for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'alloc' and v is not None and v[2] == 'live')
        if not live:
            return live
        work = [v for c, v in s.mem.items() if not isinstance(c[0], int) and c not in live] + list(vals)
        while work and live:
            v = work.pop()
            if isinstance(v, tuple) and v:
                if v[0] == 'ref':
                    live.discard(v[1])
                else:
                    work += [x for x in v if isinstance(x, tuple)]
        return live

    def must(self, I, s, f, text):
        """undefined behaviour unless f"""
        if not s.ask(f):
            self.undefined(I, s, text)

    # -- layouts
    def layout_of(self, ty):
        """(size, align, [(offset, width)]) of a type, None when it is not known"""
        t = self.P.T[ty]
        k = t.get('k')
        if k in ('int', 'bool', 'char'):
            n = t.get('size') or (t['w'] // 8 if t.get('w') else None)
            return None if n is None else (n, t.get('align') or n, [(0, n)])
        if k == 'adt' and t.get('variants') and not t.get('enum'):
            off, al, fs = 0, 1, []
            for f in t['variants'][0]['fields']:
                r = self.layout_of(f[1])
                if r is None or len(r[2]) != 1:
                    return None
                off = (off + r[1] - 1) // r[1] * r[1]
                fs.append((off, r[0]))
                off += r[0]
                al = max(al, r[1])
            return ((off + al - 1) // al * al, al, fs)
        return None

    def elem_ty(self, I, c, k):
        """type argument k of the callee"""
        a = tyargs(I, c)
        return a[k] if k < len(a) else None

    # -- pointers
    def root(self, I, s, p):
        """(cell, projs) of a pointer into an allocation"""
        for _ in range(6):
            if isinstance(p, tuple) and p[0] == 'adt' and len(p[2]) == 1:
                p = p[2][0]
            elif isinstance(p, tuple) and p[0] == 'ref' and not p[2] and isinstance(s.mem.get(p[1]), tuple) \
                    and s.mem[p[1]][0] in ('ref', 'adt') and s.g(('alloc', p[1])) is None:
                p = s.mem[p[1]]
            else:
                break
        return p

    def start_of(self, I, s, projs):
        """byte offset designated by the projections (single slices only), or None"""
        off = 0
        for p in projs:
            if p[0] == 'ss':
                off = L.add(off, p[1])
            elif p[0] == 'e':
                off = L.add(off, p[1])
            else:
                return None
        return off

    def heap_call(self, I, s, c, name, args):
        short = name.split('::')[-1]
        if name.startswith('std::alloc::Layout::') or name.startswith('core::alloc::layout::Layout::') or 'Layout::' in name and 'alloc' in name:
            return self.layout_call(I, s, c, short, args)
        if name in ('std::alloc::alloc', 'std::alloc::alloc_zeroed', 'alloc::alloc::alloc', 'alloc::alloc::alloc_zeroed'):
            return self.do_alloc(I, s, args[0], 'zeroed' in name)
        if name in ('std::alloc::dealloc', 'alloc::alloc::dealloc'):
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.do_dealloc(I, x, args[0], args[1]))]
        if name in ('std::alloc::realloc', 'alloc::alloc::realloc'):
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.do_realloc(I, x, args))]
        if name.endswith(('std::alloc::handle_alloc_error', 'alloc::alloc::handle_alloc_error')):
            return [(s, 'panic', 'handle_alloc_error')]
        if 'ptr::NonNull::' in name or name.startswith('core::ptr::non_null::'):
            if short == 'new':
                return [(s, 'ret', NONE if args[0] == ('obj', 'null') else some(args[0]))]
            if short in ('as_ptr', 'new_unchecked', 'cast', 'from', 'as_ref', 'as_mut'):
                v = args[0]
                if short == 'new_unchecked' and v == ('obj', 'null'):
                    return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.undefined(I, x, 'a null pointer is declared non-null'))]
                return [(s, 'ret', v)]
        if short in ('is_null',) and 'ptr' in name:
            return [(s, 'ret', int(args[0] == ('obj', 'null')))]
        if short in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in name and 'Vec' not in name:
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.raw_slice(I, x, args))]
        if short == 'align_to' or short == 'align_to_mut':
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.align_to(I, x, c, args))]
        if name.startswith('bytemuck::') and short in ('cast_slice', 'cast_slice_mut'):
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.cast_slice(I, x, c, args))]
        if SORTS.get(short) and ('slice' in name or 'Slice' in name):
            return self.sort(I, s, short, args)
        if short in ('checked_next_multiple_of', 'next_multiple_of') and len(args) == 2:
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.next_multiple(I, x, short, args))]
        return None

    def next_multiple(self, I, s, short, args):
        a, m = I.as_num(args[0]), I.as_num(args[1])
        if not isinstance(m, int) or m == 0:
            raise Undecided('multiple of an unknown number')
        opt = short.startswith('checked')
        if isinstance(a, int):
            r = (a + m - 1) // m * m
            if r >= 1 << 64:
                if opt:
                    return NONE
                raise Panic('attempt to add with overflow')
            return some(r) if opt else r
        if a is None:
            raise Undecided('number')
        n = ('rounded', a, m)
        r = L.atom(n)
        if not s.ask(L.le(a, (1 << 64) - m)):
            if opt:
                return NONE
            raise Panic('attempt to add with overflow')
        s.range(n, 0, (1 << 64) - 1)
        s.assume(L.le(a, r))
        s.assume(L.le(r, L.add(a, m - 1)))
        s.gset('multiples', s.g('multiples', frozenset()) | {(n, m)})
        return some(r) if opt else r

    def is_multiple(self, s, v, m):
        """v known to be a multiple of m: True / False / None"""
        if isinstance(v, int):
            return v % m == 0
        if not (isinstance(v, tuple) and v[0] == 'lin'):
            return None
        known = s.g('multiples', frozenset())
        ok_ = v[1] % m == 0
        for a, k in v[2]:
            if k % m == 0:
                continue
            if any(x == a and w * abs(k) % m == 0 for x, w in known):
                continue
            ok_ = None
        return ok_

    def layout_call(self, I, s, c, short, args):
        def f(s):
            if short in ('from_size_align', 'from_size_align_unchecked'):
                n, al = I.as_num(args[0]), I.as_num(args[1])
                if not isinstance(al, int) or al <= 0 or al & (al - 1):
                    raise Undecided('alignment')
                if short.endswith('unchecked'):
                    return ('obj', 'layout', n, al)
                if s.ask(L.le(n, ISIZE + 1 - al)):
                    return ok(('obj', 'layout', n, al))
                return err(('obj', 'layouterr'))
            if short in ('size', 'align'):
                o = vderef(I, s, args[0])
                return o[2] if short == 'size' else o[3]
            if short in ('array', 'new'):
                ty = self.elem_ty(I, c, 0)
                r = None if ty is None else self.layout_of(ty)
                if r is None:
                    raise Undecided('layout')
                if short == 'new':
                    return ('obj', 'layout', r[0], r[1])
                n = L.scale(I.as_num(args[0]), r[0])
                if s.ask(L.le(n, ISIZE + 1 - r[1])):
                    return ok(('obj', 'layout', n, r[1]))
                return err(('obj', 'layouterr'))
            raise Undecided('Layout::' + short)
        return [(x, 'ret', v) for x, v in I.branch(s, f)]

    def lay(self, I, s, v):
        v = vderef(I, s, v)
        if not (isinstance(v, tuple) and v[:2] == ('obj', 'layout')):
            raise Undecided('layout')
        return v[2], v[3]

    def do_alloc(self, I, s, lv, zero):
        n, al = self.lay(I, s, lv)
        out = []
        for s1, pos in I.branch(s, lambda x: x.ask(L.lt(0, n))):
            if not pos:
                out += [(x, 'ret', v) for x, v in I.branch(s1, lambda x: self.undefined(I, x, 'an allocation of zero bytes is requested'))]
                continue
            if self.oom:
                s2 = s1.copy()
                s2.note('the allocation fails')
                out.append((s2, 'ret', ('obj', 'null')))
            k = s1.g('allocs', 0)
            s1.gset('allocs', k + 1)
            cell = s1.alloc(('seq', (('rep', 0, n),) if zero else (('s', ('memory', k), 0, n),)))
            s1.gset(('alloc', cell), (n, al, 'live'))
            out.append((s1, 'ret', ('ref', cell, ())))
        return out

    def block(self, I, s, p, what):
        p = self.root(I, s, p)
        if p == ('obj', 'null'):
            self.undefined(I, s, '%s a null pointer' % what)
        if not (isinstance(p, tuple) and p[0] == 'ref'):
            raise Undecided('raw pointer')
        a = s.g(('alloc', p[1]))
        if a is None:
            raise Undecided('pointer to no allocation')
        if a[2] != 'live':
            self.undefined(I, s, '%s freed memory' % what)
        return p, a

    def do_dealloc(self, I, s, ptr, lv):
        n, al = self.lay(I, s, lv)
        p, a = self.block(I, s, ptr, 'the program frees')
        off = self.start_of(I, s, p[2])
        if off is None:
            raise Undecided('freed pointer')
        self.must(I, s, L.eq(off, 0), 'a pointer inside an allocation is freed')
        self.must(I, s, L.eq(n, a[0]), 'an allocation is freed with another size than it was made with')
        if al != a[1]:
            self.undefined(I, s, 'an allocation is freed with another alignment than it was made with')
        s.gset(('alloc', p[1]), (a[0], a[1], 'freed'))
        return UNIT

    def do_realloc(self, I, s, args):
        n, al = self.lay(I, s, args[1])
        new = I.as_num(args[2])
        p, a = self.block(I, s, args[0], 'the program reallocates')
        self.must(I, s, L.eq(n, a[0]), 'an allocation is resized with another size than it was made with')
        if al != a[1]:
            self.undefined(I, s, 'an allocation is resized with another alignment than it was made with')
        self.must(I, s, L.lt(0, new), 'an allocation is resized to nothing')
        v = s.mem[p[1]]
        k = s.g('allocs', 0)
        s.gset('allocs', k + 1)
        if s.ask(L.le(new, n)):
            g = I.seq_slice(s, v[1], 0, new)
        else:
            g = v[1] + (('s', ('memory', k), 0, L.sub(new, n)),)
        cell = s.alloc(('seq', norm_segs(g)))
        s.gset(('alloc', p[1]), (a[0], a[1], 'freed'))
        s.gset(('alloc', cell), (new, al, 'live'))
        return ('ref', cell, ())

    def raw_slice(self, I, s, args):
        p, a = self.block(I, s, args[0], 'a slice is made of')
        n = I.as_num(args[1])
        if n is None:
            raise Undecided('slice length')
        off = self.start_of(I, s, p[2])
        if off is None:
            raise Undecided('raw slice of a projection')
        self.must(I, s, L.le(L.add(off, n), a[0]), 'a slice reaches beyond its allocation')
        if off == 0 and s.facts.prove(L.eq(n, a[0])) is True:
            return ('ref', p[1], ())
        return ('ref', p[1], (('ss', off, L.add(off, n)),))

    # -- typed views
    def byte_view(self, I, s, p):
        p = inner_ptr(I, s, p)
        v = I.deref(s, p)
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            raise Undecided('view of no bytes')
        return p, G.fixed(s, I.ptr_len(s, p))

    def aligned(self, I, s, p, al):
        """is the address a multiple of al (True / False / None)"""
        if p[0] != 'ref':
            return None
        a = s.g(('alloc', p[1]))
        off = self.start_of(I, s, p[2])
        if a is None or off is None:
            return None
        if a[1] % al:
            return None
        return self.is_multiple(s, off, al)

    def target(self, I, c, k):
        for i in (k, 0, 1):
            ty = self.elem_ty(I, c, i)
            if ty is not None and self.P.T[ty].get('k') == 'adt':
                r = self.layout_of(ty)
                if r is not None:
                    return ty, r
        raise Undecided('element type')

    def cast_slice(self, I, s, c, args):
        ty, (w, al, fs) = self.target(I, c, 1)
        p, n = self.byte_view(I, s, args[0])
        if self.elem_ty(I, c, 1) != ty:
            raise Undecided('cast from a structure')
        if self.is_multiple(s, n, w) is not True:
            if self.is_multiple(s, n, w) is False:
                raise Panic('cast_slice: the length is no multiple of the element size')
            raise Undecided('cast length %s' % (n,))
        if self.aligned(I, s, p, al) is not True:
            if self.aligned(I, s, p, al) is False or p[0] == 'ref' and (s.g(('alloc', p[1])) or (0, al))[1] % al:
                raise Panic('cast_slice: the bytes are not aligned')
            raise Undecided('cast alignment')
        return ('ref', p[1], p[2] + (('cast', ty, n),))

    def align_to(self, I, s, c, args):
        ty, (w, al, fs) = self.target(I, c, 1)
        p, n = self.byte_view(I, s, args[0])
        if self.aligned(I, s, p, al) is not True:
            raise Undecided('align_to of bytes of unknown alignment')
        if isinstance(n, int):
            m = n // w
        elif self.is_multiple(s, n, w):
            q = ('quot', n, w)
            m = L.atom(q)
            s.range(q, 0, ISIZE)
            s.assume(L.eq(L.scale(m, w), n))
        else:
            q = ('quot', n, w)
            m = L.atom(q)
            s.range(q, 0, ISIZE)
            s.assume(L.le(L.scale(m, w), n))
            s.assume(L.lt(n, L.add(L.scale(m, w), w)))
        e = L.scale(m, w)
        return ('tup', (('ref', p[1], p[2] + (('ss', 0, 0),)), ('ref', p[1], p[2] + (('ss', 0, e), ('cast', ty, e))),
                        ('ref', p[1], p[2] + (('ss', e, n),))))

    def castlen(self, I, s, p):
        n = p[2][-1][2]
        return self.quotient(s, n, self.layout_of(p[2][-1][1])[0])

    def quotient(self, s, n, w):
        """n // w for a multiple n of w"""
        if isinstance(n, int):
            return n // w
        if n[0] == 'lin' and n[1] % w == 0 and all(k % w == 0 for _, k in n[2]):
            r = n[1] // w
            for a, k in n[2]:
                r = L.add(r, L.scale(L.atom(a), k // w))
            return r
        q = ('quot', n, w)
        m = L.atom(q)
        s.range(q, 0, ISIZE)
        s.assume(L.eq(L.scale(m, w), n))
        return m

    def castview(self, I, s, v, p):
        """bytes seen as elements of a structure"""
        ty = p[1]
        w, al, fs = self.layout_of(ty)
        g = list(v[1])
        out = []
        left = lambda: L.sub(p[2], L.scale(seq_len(tuple(out)), w))
        while g:
            x = g[0]
            if x[0] == 'trun':
                out.append(('run',) + x[1:])
                g.pop(0)
                continue
            n = self.pinned(s, seg_len(x))
            if isinstance(n, int) and x[0] == 's':
                x = ('s', x[1], x[2], L.add(x[2], n))
                g[0] = x
            if not isinstance(n, int):
                if self.is_multiple(s, n, w) and x[0] == 's':
                    q = ('quot', n, w)
                    m = L.atom(q)
                    s.range(q, 0, ISIZE)
                    s.assume(L.eq(L.scale(m, w), n))
                    out.append(('s', ('view', ty, x[1], x[2]), 0, m))
                    g.pop(0)
                    continue
                out += self.unknown_view(s, ty, tuple(g), w, left())
                break
            if x[0] == 's' and n % w == 0:
                # nothing is known of these bytes
                if n // w <= 64:
                    out += [('e', ('top', 'raw'))] * (n // w)
                else:
                    out.append(('s', ('view', ty, x[1], x[2]), 0, n // w))
                g.pop(0)
                continue
            if x[0] == 's' and n > w:
                g[0:1] = list(I.seq_slice(s, (x,), 0, n - n % w)) + list(I.seq_slice(s, (x,), n - n % w, n))
                continue
            acc, size = [], 0
            while g and size < w:
                m = self.pinned(s, seg_len(g[0]))
                if not isinstance(m, int):
                    break
                if size + m > w:
                    a, b = I.seq_cut(s, tuple(g), w - size)
                    acc += list(a)
                    g = list(b)
                    size = w
                else:
                    acc.append(g.pop(0))
                    size += m
            if size < w:
                if not g:
                    raise Undecided('typed view ends inside an element')
                out += self.unknown_view(s, ty, tuple(acc) + tuple(g), w, left())
                break
            out.append(('e', self.decode(I, s, tuple(acc), fs)))
        return ('seq', tuple(out))

    def pinned(self, s, n):
        """n, or the only value the facts leave it"""
        n = G.fixed(s, n)
        if isinstance(n, int):
            return n
        lo = hi = None
        minus = L.scale(n, -1)[2]
        for q in s.facts.ineq:
            if q[2] == n[2]:
                lo = max(n[1] - q[1], lo) if lo is not None else n[1] - q[1]
            if q[2] == minus:
                hi = min(n[1] + q[1], hi) if hi is not None else n[1] + q[1]
        return lo if lo is not None and lo == hi else n

    def unknown_view(self, s, ty, g, w, n):
        """elements made of bytes of other extents"""
        n = self.pinned(s, n)
        if self.is_multiple(s, n, w) is not True:
            raise Undecided('typed view of bytes of unknown extent')
        return [('s', ('mixed', ty, g), 0, self.quotient(s, n, w))]

    def decode(self, I, s, g, fs):
        vals = []
        for off, w in fs:
            part = norm_segs(I.seq_slice(s, g, off, off + w))
            if len(part) == 1 and part[0][0] == 'n' and part[0][1] == 'le' and part[0][2] == w:
                vals.append(part[0][3])
            elif any(x[0] == 's' and isinstance(x[1], str) for x in part) and w <= 8:
                # bytes of a key or a value: any number
                q = ('bytes', part)
                s.range(q, 0, (1 << 8 * w) - 1)
                vals.append(L.atom(q))
            else:
                vals.append(('top', 'raw'))
        return ('adt', 0, tuple(vals))

    def castwrite(self, I, s, old, p, fn):
        ty = p[1]
        w, al, fs = self.layout_of(ty)
        new = fn(self.castview(I, s, old, p))
        out, pos, views = [], 0, {}
        for x in new[1]:
            if x[0] == 'e':
                v = x[1]
                if v == ('top', 'raw') or v[0] == 'top':
                    out.append(('s', ('raw', len(out)), 0, w))
                    continue
                end = 0
                for (off, fw), f in zip(fs, v[2]):
                    if off != end:
                        out.append(('s', ('padding',), 0, off - end))
                    n = I.as_num(f)
                    out.append(('s', ('raw', len(out)), 0, fw) if n is None else ('n', 'le', fw, n))
                    end = off + fw
                if end != w:
                    out.append(('s', ('padding',), 0, w - end))
            elif x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'view':
                out.append(('s', x[1][2], L.add(x[1][3], L.scale(x[2], w)), L.scale(x[3], w)))
            elif x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'mixed':
                out += I.seq_slice(s, x[1][2], L.scale(x[2], w), L.scale(x[3], w))
            elif x[0] == 'run':
                out.append(('trun',) + x[1:])
            else:
                raise Undecided('typed write')
        return ('seq', norm_segs(tuple(out)))

    def cmp_bytes(self, I, s, a, b):
        r = super().cmp_bytes(I, s, a, b)
        if r is None:
            x, y = G.settled(s, a), G.settled(s, b)
            if (x, y) != (a, b):
                return I.cmp_segs(s, x, y)
        return r

    # -- sorting
    def sort(self, I, s, short, args):
        by = SORTS[short]
        stable = 'unstable' not in short
        p = inner_ptr(I, s, args[0])
        v = I.deref(s, p)
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            raise Undecided('sort of no slice')
        els = v[1]
        if any(x[0] != 'e' for x in els):
            r = self.sort_run(I, s, p, v, args)
            if r is not None:
                return r
            raise Undecided('sort of a summarised slice')
        fn = args[1] if len(args) > 1 else None
        states = [(s, [])]
        out = []
        if by == 'key':
            for i, x in enumerate(els):
                nxt = []
                for s1, ks in states:
                    for s2, k, r in I.call_value(s1, fn, [I.elem_ptr(s1, p, ('e', i))]):
                        if k != 'ret':
                            out.append((s2, k, r))
                        else:
                            nxt.append((s2, ks + [r]))
                states = nxt

        def less(x, i, j, ks):
            """order of elements i and j: -1 / 0 / 1 in a list of (state, order)"""
            if by == 'key':
                return I.branch(x, lambda y: cmp_any(I, y, ks[i], ks[j]))
            a, b = ('snap', els[i][1]), ('snap', els[j][1])
            if by == 'by':
                r = []
                for y, k, o in I.call_value(x, fn, [a, b]):
                    if k != 'ret':
                        raise Undecided('comparison panics')
                    o = G.variant(I, y, o) if not (isinstance(o, tuple) and o[0] == 'adt') else o
                    r.append((y, {0: -1, 1: 0, 2: 1}[o[1]]))
                return r
            return I.branch(x, lambda y: cmp_any(I, y, a, b))
        # insertion sort with binary decisions, ties kept (stable) or explored both ways (unstable)
        for s1, ks in states:
            work = [(s1, (), 0)]
            while work:
                x, order, i = work.pop()
                if len(work) > 4000:
                    raise Undecided('too many orders')
                if i == len(els):
                    I.write_ptr(x, p, ('seq', tuple(els[j] for j in order)))
                    out.append((x, 'ret', UNIT))
                    continue
                # compare from the back
                pend = [(x, len(order), False)]
                while pend:
                    y, at_, tie = pend.pop()
                    if at_ == 0:
                        work.append((y, (i,) + order, i + 1))
                        continue
                    for z, o in less(y, order[at_ - 1], i, ks):
                        if o < 0 or o == 0 and stable:
                            work.append((z, order[:at_] + (i,) + order[at_:], i + 1))
                        elif o > 0:
                            pend.append((z, at_ - 1, tie))
                        else:
                            work.append((z.copy(), order[:at_] + (i,) + order[at_:], i + 1))
                            pend.append((z, at_ - 1, True))
        return out

    def sort_run(self, I, s, p, v, args):
        return None


SORTS = {'sort': 'val', 'sort_unstable': 'val', 'par_sort': 'val', 'par_sort_unstable': 'val', 'sort_by': 'by', 'sort_unstable_by': 'by',
         'par_sort_by': 'by', 'par_sort_unstable_by': 'by', 'sort_by_key': 'key', 'sort_by_cached_key': 'key', 'sort_unstable_by_key': 'key',
         'par_sort_by_key': 'key', 'par_sort_unstable_by_key': 'key', 'par_sort_by_cached_key': 'key'}


def cmp_any(I, s, a, b):
    if isinstance(a, tuple) and a[0] == 'tup':
        for x, y in zip(a[1], b[1]):
            r = cmp_any(I, s, x, y)
            if r:
                return r
        return 0
    if isinstance(a, tuple) and a[0] == 'adt' and isinstance(b, tuple) and b[0] == 'adt':
        if a[1] != b[1]:
            return (a[1] > b[1]) - (a[1] < b[1])
        for x, y in zip(a[2], b[2]):
            r = cmp_any(I, s, x, y)
            if r:
                return r
        return 0
    na, nb = I.as_num(a), I.as_num(b)
    if na is not None and nb is not None:
        if s.ask(L.eq(na, nb)):
            return 0
        return -1 if s.ask(L.lt(na, nb)) else 1
    return cmp_vals(I, s, a, b)
