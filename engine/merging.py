"""Merging: the merger interpreted over sources that are either cursors summarised as entry lists or real cursors over
files built by the independent encoder; the merge function is an opaque component that logs its calls."""
import re
from . import lin as L, grenad as G, wfile as W, roundtrip as R
from .core import *
from .iodom import ioerr
from .heap import Heap, SORTS


def sym(name):
    return (('s', name, 0, L.atom(('len', name))),)


class MergeDom(R.RDom):
    """keys k0 < k1 < ..; values opaque
       cow: 'owned' | 'borrowed': the shape of the merge function's result
       lists: source name -> [(key, value)] of the summarised cursors"""

    def __init__(self, P, nkeys, cow='owned', **kw):
        super().__init__(nkeys, **kw)
        self.P = P
        self.cow = cow
        self.lists = {}
        self.io = G.variant_index(P, 'error::Error', 'Io')
        self.wraps = {}

    def call(self, I, s, c, name, args):
        if name.endswith('::MergeFunction::merge'):
            return self.merge(I, s, c, args)
        short = name.split('::')[-1]
        if short in SORTS and ('slice' in name or 'Slice' in name):
            return Heap.sort(self, I, s, short, args)
        m = re.search(r'(?:^|::)ReaderCursor::(\w+)$', name)
        if m:
            o = self.cursor(I, s, args[0])
            if o is not None:
                return self.cursor_call(I, s, m.group(1), args, o)
        if name.endswith('ReaderCursor as std::ops::Deref>::deref'):
            o = self.cursor(I, s, args[0])
            if o is not None:
                return [(s, 'ret', ('snap', ('obj', 'readof', o[2])))]
        if name.endswith(('Reader::len', 'Reader::is_empty')):
            o = self.opaque(I, s, args[0], 'readof')
            if o is not None:
                n = len(self.entries_of(s, o[2]))
                return [(s, 'ret', n if short == 'len' else int(n == 0))]
        m = re.search(r'(?:^|::)Writer::insert$', name)
        if m:
            o = self.opaque(I, s, args[0], 'writer')
            if o is not None:
                return self.writer_insert(I, s, args, o)
        return super().call(I, s, c, name, args)

    def sort_run(self, I, s, p, v, args):
        return None

    def opaque(self, I, s, v, kind):
        for _ in range(6):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                try:
                    v = I.deref(s, v)
                except Undecided:
                    return None
            else:
                break
        return v if isinstance(v, tuple) and v[:2] == ('obj', kind) else None

    def cursor(self, I, s, v):
        return self.opaque(I, s, v, 'cur')

    def bytes_of(self, I, s, v):
        for _ in range(8):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                v = I.deref(s, v)
            elif isinstance(v, tuple) and v[0] == 'adt' and len(v[2]) == 1:      # Cow
                v = v[2][0]
            else:
                break
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            raise Undecided('bytes expected')
        return G.settled(s, v[1])

    # ------------------------------------------------ components
    def io_err(self, e):
        return err(('adt', self.io, (e,)))

    def fails_as(self, name, e):
        """the error value of a summarised function, in its declared error type"""
        w = self.wraps.get(name)
        if w is None:
            b = G.fn(self.P, name, True)
            T = self.P.T
            t = T[T[b['locals'][0][0]]['args'][1]]
            w = self.wraps[name] = 'io' if t.get('path') == 'std::io::Error' else 'lib'
        return err(e) if w == 'io' else self.io_err(e)

    def merge(self, I, s, c, args):
        key = self.bytes_of(I, s, args[1])
        vals = []
        vs = I.ptr_seq(s, args[2])
        for x in vs:
            if x[0] != 'e':
                raise Undecided('merged values')
            vals.append(self.bytes_of(I, s, x[1]))
        vals = tuple(vals)
        out = []
        for s1, e in self.may_fail(I, s, 'merge function'):
            if e is not None:
                out.append((s1, 'ret', err(('obj', 'mergeerr', e))))
                continue
            who = self.opaque(I, s1, args[0], 'mf')
            s1.gset('merges', s1.g('merges', ()) + ((key, vals) + (who[2:] if who else ()),))
            if self.cow == 'borrowed' and vals:
                r = ('adt', 0, (('snap', ('seq', vals[-1])),))
            elif len(vals) == 1:
                r = ('adt', 1, (('seq', vals[0]),))
            else:
                r = ('adt', 1, (('seq', self.merged(key, vals)),))
            out.append((s1, 'ret', ok(r)))
        return out

    def merged(self, key, vals):
        if self.cow == 'borrowed' or len(vals) == 1:
            return vals[-1]
        return sym(('merged', key, vals))

    def entries_of(self, s, sid):
        return self.lists[sid]

    def cursor_call(self, I, s, m, args, o):
        lst = self.entries_of(s, o[2])
        pos = o[3]
        n = len(lst)
        key = None
        if m in ('current', 'move_on_next', 'move_on_prev', 'move_on_first', 'move_on_last'):
            pass
        elif m.startswith('move_on_key_'):
            key = self.bytes_of(I, s, args[1])
        elif m == 'clone':
            return [(s, 'ret', o)]
        elif m == 'reset':
            I.write_ptr(s, self.cell_of(I, s, args[0]), o[:3] + (None,) + o[4:])
            return [(s, 'ret', UNIT)]
        else:
            raise Undecided('cursor operation ' + m)

        def ent(s, i):
            return some(('tup', tuple(('snap', ('seq', x)) for x in lst[i]))) if i is not None else NONE
        if m == 'current':
            return [(s, 'ret', ent(s, pos if pos is not None and 0 <= pos < n else None))]
        if m == 'move_on_next' and pos is not None and pos >= n:
            raise Undecided('a cursor moved past its end')
        ranks = [self.rank(k) for k, _ in lst]
        if key is not None:
            r = self.rank(key)
            if r is None:
                raise Undecided('seek key')
            ge = [i for i in range(n) if ranks[i] >= r]
            le = [i for i in range(n) if ranks[i] <= r]
            new = {'move_on_key_greater_than_or_equal_to': ge[:1], 'move_on_key_lower_than_or_equal_to': le[-1:],
                   'move_on_key_equal_to': [i for i in range(n) if ranks[i] == r]}[m]
            new = new[0] if new else None
        elif m == 'move_on_next':
            new = (0 if pos is None else pos + 1)
            new = new if new < n else None
        elif m == 'move_on_prev':
            new = (n if pos is None else pos) - 1
            new = new if new >= 0 else None
        elif m == 'move_on_first':
            new = 0 if n else None
        else:
            new = n - 1 if n else None
        out = []
        for s1, e in self.may_fail(I, s, 'source of cursor %s' % (o[2],)):
            if e is not None:
                out.append((s1, 'ret', self.io_err(e)))
                continue
            # after an operation without a result the position is not specified
            p = args[0]
            I.write_ptr(s1, self.cell_of(I, s1, p), o[:3] + (new if new is not None else n + 1,) + o[4:])
            out.append((s1, 'ret', ok(ent(s1, new))))
        return out

    def cell_of(self, I, s, p):
        for _ in range(6):
            v = I.deref(s, p)
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                p = v
            else:
                return p
        return p

    def writer_insert(self, I, s, args, o):
        k, v = self.bytes_of(I, s, args[1]), self.bytes_of(I, s, args[2])
        out = []
        for s1, e in self.may_fail(I, s, 'sink of the writer'):
            if e is not None:
                out.append((s1, 'ret', self.fails_as('writer::Writer::insert', e)))
                continue
            s1.gset(('written', o[2]), s1.g(('written', o[2]), ()) + ((k, v),))
            out.append((s1, 'ret', ok(UNIT)))
        return out


def carries(v, tok):
    """the injected error tok inside an error value"""
    return isinstance(v, tuple) and (v == tok or any(carries(x, tok) for x in v))


def judge_fault(P, s, v, tok, ret_kind='ret'):
    """None when the outcome of a call during which component `tok` failed is the error carrying that failure, else text"""
    what = 'the failure of the %s' % tok[0]
    if ret_kind != 'ret':
        return '%s makes the call panic (%s)' % (what, v)
    if not (isinstance(v, tuple) and v[0] == 'adt' and len(v[2]) == 1 and v[1] == 1):
        return '%s is not reported: the call returns success' % what
    e = v[2][0]
    want = 'Merge' if tok[0] == 'merge function' else 'Io'
    inner = ('obj', 'ioerr', 'injected', tok)
    if want == 'Io' and isinstance(e, tuple) and e[0] == 'obj':
        return None if carries(e, inner) else '%s surfaces as another I/O error' % what
    if not (isinstance(e, tuple) and e[0] == 'adt' and e[1] == G.variant_index(P, 'error::Error', want)):
        return '%s surfaces as another kind of error' % what
    if not carries(e[2][0], ('obj', 'mergeerr', inner) if want == 'Merge' else inner):
        return '%s surfaces as an error that does not carry it' % what
    return None


def dom_lends(I):
    return I.dom is not None and I.dom.lend


class Merging:
    def __init__(self, P):
        self.P = P
        f = lambda n: G.fn(P, n, True)
        self.builder = f('merger::Merger::builder')
        self.bnew = f('MergerBuilder::new')
        self.push = f('MergerBuilder::push')
        self.add = f('MergerBuilder::add')
        self.build = f('MergerBuilder::build')
        self.iter = f('merger::Merger::into_stream_merger_iter')
        self.next = f('MergerIter::next')
        self.stream = f('merger::Merger::write_into_stream_writer')
        self.ext = [b for b in P.roots if b['local'] and re.search(r'<merger::MergerBuilder as std::iter::Extend>::extend$', b['np'])]

    def sources(self, I, s, lists, how='list'):
        """[(state, [cursor values])]"""
        if how == 'list':
            out = []
            for i, l in enumerate(lists):
                I.dom.lists[i] = l
                out.append(('obj', 'cur', i, None))
            return [(s, out)]
        rd = R.Reading(self.P)
        st = [(s, [])]
        for i, l in enumerate(lists):
            data = R.spec_file(s, l, 0, 2, 'None', {j: ['data'] for j in range(len(l)) if (i + j) % 2})
            nxt = []
            for s1, cs in st:
                src = s1.alloc(('obj', 'rd', data, 0, i))
                for s2, kd, v in I.run_body(s1, rd.new, [('ref', src, ())]):
                    if s2.g('fault') is not None:
                        continue
                    if kd != 'ret' or v[1] != 0:
                        raise Undecided('opening a source')
                    for s3, kd, c in I.run_body(s2, rd.into, [v[2][0]]):
                        if kd != 'ret' or c[1] != 0:
                            raise Undecided('opening a source')
                        nxt.append((s3, cs + [c[2][0]]))
            st = nxt
        return st

    def merger(self, I, s, curs, via):
        """[(state, merger value)] through the public builder"""
        if via == 'new':
            st = I.run_body(s, self.bnew, [('obj', 'mf')])
        else:
            st = I.run_body(s, self.builder, [('obj', 'mf')])
        st = [(s1, s1.alloc(self.ret(k, v, 'Merger::builder'))) for s1, k, v in st]
        if via == 'extend' and self.ext:
            nxt = []
            for s1, b in st:
                for s2, k, v in I.run_body(s1, self.ext[0], [('ref', b, ()), ('seq', tuple(('e', c) for c in curs))]):
                    self.ret(k, v, 'MergerBuilder::extend')
                    nxt.append((s2, b))
            st, curs = nxt, []
        for i, c in enumerate(curs):
            nxt = []
            for s1, b in st:
                if (i + len(curs)) % 3 == 0:
                    for s2, k, v in I.run_body(s1, self.add, [I.deref(s1, ('ref', b, ())), c]):
                        nxt.append((s2, s2.alloc(self.ret(k, v, 'MergerBuilder::add'))))
                else:
                    for s2, k, v in I.run_body(s1, self.push, [('ref', b, ()), c]):
                        self.ret(k, v, 'MergerBuilder::push')
                        nxt.append((s2, b))
            st = nxt
        out = []
        for s1, b in st:
            for s2, k, v in I.run_body(s1, self.build, [I.deref(s1, ('ref', b, ()))]):
                out.append((s2, self.ret(k, v, 'MergerBuilder::build')))
        return out

    def ret(self, k, v, what):
        if k != 'ret':
            raise Bad('panic', '%s panics: %s' % (what, v))
        return v

    def expected(self, dom, lists):
        keys = {}
        for l in lists:
            for k, v in l:
                keys.setdefault(dom.rank(k), (k, []))[1].append(v)
        return [(k, tuple(vs)) for _, (k, vs) in sorted(keys.items())]

    def check(self, I, s, lists, what, stream=False, via='builder', how='list'):
        """[(kind, text)] of the wrong behaviours; raises Undecided"""
        dom = I.dom
        exp = self.expected(dom, lists)
        bad = []
        for s0, curs in self.sources(I, s, lists, how):
            for s1, m in self.merger(I, s0, curs, via):
                if stream:
                    self.streamed(I, s1, m, exp, what, bad)
                else:
                    self.iterated(I, s1, m, exp, what, bad)
        return bad

    def fault(self, I, s, k, v, opname, what, bad):
        """the call reported while a component failed during it"""
        tok = s.g('fault')
        if tok is None:
            return False
        t = judge_fault(self.P, s, v, tok, k)
        if t and G.feasible(s):
            bad.append(('fault', '%s: %s on %s (%s)' % (opname, t, what, '; '.join(s.trace[-2:]))))
        return True

    def iterated(self, I, s, m, exp, what, bad):
        for s1, k, v in I.run_body(s, self.iter, [m]):
            if self.fault(I, s1, k, v, 'into_stream_merger_iter', what, bad):
                continue
            if k != 'ret' or v[1] != 0:
                bad.append(('iter-fails', 'into_stream_merger_iter %s on %s' % ('panics: %s' % (v,) if k != 'ret' else 'returns an error', what)))
                continue
            self.drain(I, s1, v[2][0], exp, what, bad)

    def drain(self, I, s, it, exp, what, bad):
        c = s.alloc(it)
        st = [s]
        for i in range(len(exp) + 1):
            w = exp[i] if i < len(exp) else None
            nxt = []
            for s2 in st:
                before = s2.g('merges', ())
                for s3, k, v in I.run_body(s2, self.next, [('ref', c, ())]):
                    if self.fault(I, s3, k, v, 'MergerIter::next', what, bad):
                        continue
                    if dom_lends(I):
                        bad += [('lent', 'MergerIter::next returns a key or value %s, on %s' % (x, what)) for x in G.lent(I, s3, v)]
                    t = self.compare(I, s3, k, v, w, before)
                    if t is None:
                        nxt.append(s3)
                    elif G.feasible(s3):
                        bad.append((t[0], 'step %d of merging %s: %s' % (i + 1, what, t[1])))
                        return
            st = nxt
            if len(st) > 64:
                raise Undecided('too many cases')

    def compare(self, I, s, k, v, w, before):
        if k != 'ret':
            return 'panic', 'next panics (%s)' % (v,)
        v = G.variant(I, s, v)
        if v[1] != 0:
            return 'error', 'next returns an error although nothing failed'
        o = G.variant(I, s, v[2][0])
        calls = s.g('merges', ())[len(before):]
        if w is None:
            if o[1] != 0:
                return 'extra', 'yields an entry after all keys of the sources'
            return ('extra-merge', 'calls the merge function at the end') if calls else None
        key, vals = w
        if o[1] == 0:
            return 'missing', 'ends although the key %s is due' % G.show_segs(key)
        kp, vp = o[2][0][1]
        gk, gv = G.settled(s, I.ptr_seq(s, kp)), G.settled(s, I.ptr_seq(s, vp))
        if gk != key:
            return 'key', 'yields the key %s where %s is due' % (G.show_segs(gk), G.show_segs(key))
        t = self.calls(I.dom, calls, [(key, vals)])
        if t:
            return t
        if gv != I.dom.merged(key, vals):
            return 'value', 'yields the value %s for the key %s where %s is due' % (show(gv), G.show_segs(key), show(I.dom.merged(key, vals)))
        return None

    def calls(self, dom, calls, exp):
        """the calls of the merge function against the keys that had to be merged"""
        need = [(k, v) for k, v in exp if len(v) > 1]
        opt = [(k, v) for k, v in exp if len(v) == 1]
        for c in calls:
            if c in need:
                need.remove(c)
            elif c in opt:
                opt.remove(c)
            else:
                return 'merge-call', 'the merge function is called with the values %s of the key %s; the values of the sources in order are %s' % (
                    [show(x) for x in c[1]], G.show_segs(c[0]), ' / '.join('%s of %s' % ([show(x) for x in v], G.show_segs(k)) for k, v in exp if k == c[0]) or 'none')
        if need:
            return 'not-merged', 'the values of the key %s are not merged' % G.show_segs(need[0][0])
        return None

    def streamed(self, I, s, m, exp, what, bad):
        w = s.alloc(('obj', 'writer', 'w'))
        for s1, k, v in I.run_body(s, self.stream, [m, ('ref', w, ())]):
            if self.fault(I, s1, k, v, 'write_into_stream_writer', what, bad):
                continue
            if k != 'ret' or v[1] != 0:
                bad.append(('stream-fails', 'write_into_stream_writer %s on %s' % ('panics: %s' % (v,) if k != 'ret' else 'returns an error', what)))
                continue
            got = s1.g(('written', 'w'), ())
            t = self.calls(I.dom, s1.g('merges', ()), exp)
            want = tuple((k2, I.dom.merged(k2, vs)) for k2, vs in exp)
            if t is None and got != want:
                t = ('stream', 'writes the keys %s where %s are due' % ([G.show_segs(x[0]) for x in got], [G.show_segs(x[0]) for x in want])
                     if [x[0] for x in got] != [x[0] for x in want] else 'writes a wrong value')
            if t:
                bad.append((t[0], 'streaming the merge of %s: %s' % (what, t[1])))


class Bad(Exception):
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


def show(g):
    if len(g) == 1 and g[0][0] == 's' and isinstance(g[0][1], tuple):
        n = g[0][1]
        if n[0] == 'merged':
            return 'merge(%s)' % ', '.join(show(x) for x in n[2])
        return '%s' % (n,)
    return G.show_segs(g)


def lists_of(s, masks, n, fixed=False):
    """one sorted source per mask over the keys k0..k(n-1); values named by source and key"""
    out = []

    def sym(name, lo=0):
        s.range(('len', name), 12 if fixed else lo, 12 if fixed else 60)
        return (('s', name, 0, 12 if fixed else L.atom(('len', name))),)
    keys = [sym('k%d' % i, 0 if i == 0 else 1) for i in range(n)]
    for j, m in enumerate(masks):
        l = []
        for i in range(n):
            if m >> i & 1:
                v = 'v%d.%d' % (j, i)
                l.append((keys[i], sym(v)))
        out.append(l)
    return out


def describe(masks, n):
    return '%d sources holding the keys %s' % (len(masks), ' | '.join(','.join(str(i) for i in range(n) if m >> i & 1) or 'none' for m in masks)) if masks else 'no source'
