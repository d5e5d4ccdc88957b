"""Whole operations under disturbed components: every call of a component fails once (mode 'faults'), or serves and accepts
pieces and reports interruptions (mode 'partial'), at every point of the scenario."""
from . import lin as L, grenad as G, wfile as W, roundtrip as R, merging as M, sorting as S
from .core import *


class Run:
    """mode: 'faults' | 'partial' | 'memory'"""

    def __init__(self, P, mode, budget=1):
        self.P, self.mode, self.budget = P, mode, budget
        self.bad = []
        self.faulted = 0      # paths that ended in a judged failure
        self.calm = 0         # paths on which nothing failed

    def kw(self):
        return {'faults': {'faults': True}, 'partial': {'partial': True}, 'memory': {}}[self.mode]

    def start(self, I, s):
        if self.mode == 'partial':
            for b in ('w', 'rd'):
                s.gset(('budget', b), self.budget)
        return s

    def judge(self, I, s, kd, r, op, what):
        """True when the path ends here"""
        if kd == 'ret':
            r = G.variant(I, s, r)
        tok = s.g('fault')
        if tok is not None:
            t = M.judge_fault(self.P, s, r, tok, kd)
            self.faulted += 1
            if t and G.feasible(s):
                self.bad.append(('%s: %s' % (op, t.split(' (')[0]), '%s: %s, in %s%s' % (op, t, what, self.tail(s))))
            return True
        if self.mode == 'memory':
            return self.judge_memory(I, s, kd, r, op, what)
        if kd != 'ret' or r[1] != 0:
            if self.mode == 'partial' and not s.g('disturbed'):
                raise Undecided('%s does not succeed even undisturbed' % op)
            if G.feasible(s):
                why = 'panics (%s)' % (r,) if kd != 'ret' else 'returns an error'
                self.bad.append(('%s %s' % (op, why.split(' (')[0]), '%s %s although no component failed, in %s%s' % (op, why, what, self.tail(s))))
            return True
        return False

    def judge_memory(self, I, s, kd, r, op, what):
        if kd == 'ret':
            for t in G.lent(I, s, r):
                self.bad.append(('%s: %s' % (op, t), '%s returns a key or value %s, in %s%s' % (op, t, what, self.tail(s))))
                return True
            if r[1] != 0:
                raise Undecided('%s fails' % op)
            return False
        if G.stray(r):
            if G.feasible(s):
                self.bad.append(('%s: %s' % (op, str(r).split(' at ')[0]), '%s panics (%s) on valid data, in %s%s' % (op, r, what, self.tail(s))))
        return True

    def tail(self, s):
        n = list(s.trace)[-3:]
        return ' [%s]' % '; '.join(map(str, n)) if n else ''

    def wrong(self, s, key, text):
        if self.mode != 'partial':
            return
        if not s.g('disturbed'):
            raise Undecided('the undisturbed run: ' + text)
        if G.feasible(s):
            self.bad.append((key, text + self.tail(s)))

    # ------------------------------------------------ the writer
    def writer(self, S_, I, s, ents, levels, codec, interval, bsize, end, what, level=None):
        """the bytes the sink receives equal those of the undisturbed run"""
        ref = None
        if self.mode == 'partial':
            I.dom.partial = False
            res = R.written(S_, I, s.copy(), ents, levels, codec, interval, bsize, level)
            I.dom.partial = True
            if len(res) != 1 or (res[0][1] and res[0][1][0] == 'fail'):
                raise Undecided('the undisturbed run')
            ref = res[0][1]
        fin = {'into_inner': S_.into_inner, 'finish': G.need_fn(self.P, 'writer::Writer::finish')}[end]
        for s0, w, iv, bs in S_.build(I, self.start(I, s), levels, codec, level, interval, bsize):
            c = s0.alloc(w)
            st = [s0]
            for i, (k, v) in enumerate(ents):
                nxt = []
                for s1 in st:
                    for s2, kd, r in I.run_body(s1, S_.insert, [('ref', c, ()), ('snap', ('seq', k)), ('snap', ('seq', v))]):
                        if not self.judge(I, s2, kd, r, 'Writer::insert', what):
                            nxt.append(s2)
                st = nxt
            for s1 in st:
                for s2, kd, r in I.run_body(s1, fin, [I.deref(s1, ('ref', c, ()))]):
                    if self.judge(I, s2, kd, r, 'Writer::' + end, what):
                        continue
                    self.calm += 1
                    if self.mode == 'faults' and s2.g(('unflushed', 'w')) and G.feasible(s2):
                        self.bad.append(('Writer::%s: no flush' % end, 'Writer::%s reports success without flushing the sink after its last write: a failure the sink '
                                         'only reports when flushed is lost, in %s' % (end, what)))
                    if ref is not None:
                        self.same(I, s2, s2.g(('out', 'w'), ()), ref, what)

    def same(self, I, s, got, ref, what):
        got, ref = G.settled(s, got), norm_segs(ref)
        if got == ref:
            return
        rs = G.matches(I, s.copy(), got, ref)
        if all(m is True for _, m in rs) and rs:
            return
        if any(m is False and G.feasible(x) for x, m in rs):
            i = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
            self.wrong(s, 'Writer: other bytes', 'the sink receives other bytes than undisturbed, in %s: %s where %s is due' % (
                what, G.show_segs(got[i:i + 3]), G.show_segs(ref[i:i + 3])))
        else:
            raise Undecided('comparing the bytes')

    # ------------------------------------------------ the reader
    def reader(self, rd, I, s, data, ents, seqs, what):
        """seqs: [(operations, expected entries, name)]"""
        s = self.start(I, s)
        src = s.alloc(('obj', 'rd', data, 0))
        for s1, kd, v in I.run_body(s, rd.new, [('ref', src, ())]):
            if self.judge(I, s1, kd, v, 'Reader::new', what):
                continue
            for ops, want, name in seqs:
                for s2, kd2, v2 in I.run_body(s1.copy(), rd.into, [v[2][0]]):
                    if self.judge(I, s2, kd2, v2, 'Reader::into_cursor', what):
                        continue
                    self.walk(rd, I, s2, s2.alloc(v2[2][0]), ops, want, ents, name, what)

    def walk(self, rd, I, s, c, ops, want, ents, name, what):
        st = [s]
        for i, (op, w) in enumerate(zip(ops, want)):
            args = [('ref', c, ())]
            if isinstance(op, tuple):
                op, r = op
                I.dom.ranks['probe'] = r
                args.append(('snap', ('seq', W.symkey(s, 'probe', lo=1))))
            nm = 'ReaderCursor::' + {'first': 'move_on_first', 'last': 'move_on_last', 'next': 'move_on_next', 'prev': 'move_on_prev'}.get(
                op, 'move_on_key_' + {'ge': 'greater_than_or_equal_to', 'le': 'lower_than_or_equal_to', 'eq': 'equal_to'}.get(op, op))
            nxt = []
            for s1 in st:
                for s2, kd, v in I.run_body(s1, rd.ops[op], args):
                    if self.judge(I, s2, kd, v, nm, what):
                        continue
                    r = rd.compare(I, s2, kd, v, w, ents)
                    if r is None:
                        raise Undecided('comparing an entry')
                    if r is not True:
                        self.wrong(s2, '%s: other result' % nm, '%s returns %s where %s is due, in %s' % (nm, r, 'the end' if w is None else 'entry %d' % w, what))
                        continue
                    nxt.append(s2)
            st = nxt
            if len(st) > 200:
                raise Undecided('too many cases')
        self.calm += len(st)

    # ------------------------------------------------ the iterators
    def iterator(self, rd, I, s, data, ents, kind, arg, due, what):
        """kind: 'range' | 'rev_range' | 'prefix' | 'rev_prefix'; due: indices of the entries to come"""
        s = self.start(I, s)
        src = s.alloc(('obj', 'rd', data, 0))
        make = G.fn(self.P, 'reader::Reader::into_%s_iter' % kind, True)
        name = ''.join(x.capitalize() for x in kind.split('_')) + 'Iter'
        nxtb = G.fn(self.P, name + '::next', True)
        for s1, kd, v in I.run_body(s, rd.new, [('ref', src, ())]):
            if self.judge(I, s1, kd, v, 'Reader::new', what):
                continue
            for s2, kd2, v2 in I.run_body(s1, make, [v[2][0], arg]):
                if self.judge(I, s2, kd2, v2, 'Reader::into_%s_iter' % kind, what):
                    continue
                c = s2.alloc(v2[2][0])
                st = [s2]
                for w in list(due) + [None]:
                    nxt = []
                    for s3 in st:
                        for s4, kd3, v3 in I.run_body(s3, nxtb, [('ref', c, ())]):
                            if self.judge(I, s4, kd3, v3, name + '::next', what):
                                continue
                            r = rd.compare(I, s4, kd3, v3, w, ents)
                            if r is None:
                                raise Undecided('comparing an entry')
                            if r is not True:
                                self.wrong(s4, '%s::next: other result' % name, '%s::next returns %s where %s is due, in %s' % (name, r, 'the end' if w is None else 'entry %d' % w, what))
                                continue
                            nxt.append(s4)
                    st = nxt
                self.calm += len(st)


class RealIterDom(R.RDom):
    """iterators over a real reader; keys are concrete bytes"""

    def rank(self, g):
        return None

    def call(self, I, s, c, name, args):
        m = name.split('::')[-1]
        if m in ('start_bound', 'end_bound') and ('RangeBounds' in name or c.get('trait') == 'std::ops::RangeBounds'):
            v = args[0]
            p = None
            for _ in range(6):
                if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                    p = v
                    v = I.deref(s, v)
                else:
                    break
            i = int(m == 'end_bound')
            if isinstance(v, tuple) and v[:2] == ('obj', 'range'):
                return [(s, 'ret', v[2][i])]
            if isinstance(v, tuple) and v[0] == 'tup':
                b = v[1][i]
                if b[1] == 2:
                    return [(s, 'ret', b)]
                return [(s, 'ret', ('adt', b[1], (('ref', p[1], p[2] + (('f', i), ('f', 0))) if p[0] == 'ref' else ('snap', b[2][0]),)))]
        return super().call(I, s, c, name, args)


def raw(b):
    return tuple(('e', x) for x in b)


def iterator_jobs():
    keys = [b'a', b'ab', b'ab\xff', b'b\x00', b'b\xff\xff', b'\xff', b'\xff\xff']
    U = ('adt', 2, ())
    bd = lambda k, b: ('adt', k, (('snap', ('seq', raw(b))),))      # 0 included, 1 excluded
    out = []
    for rev in (False, True):
        o = (lambda l: l[::-1]) if rev else (lambda l: l)
        p = 'rev_' if rev else ''
        for lo, hi, due, t in ((U, U, range(7), '..'), (bd(0, b'ab'), bd(1, b'\xff'), range(1, 5), 'ab..0xFF'),
                               (bd(1, b'ab'), bd(0, b'\xff'), range(2, 6), '(ab..=0xFF'), (bd(0, b'b'), bd(0, b'b'), (), 'b..=b')):
            out.append((p + 'range', ('obj', 'range', (lo, hi)), o(list(due)), 'range ' + t))
        for pre, due in ((b'', range(7)), (b'ab', (1, 2)), (b'\xff', (5, 6)), (b'b', (3, 4)), (b'c', ())):
            out.append((p + 'prefix', ('seq', raw(pre)), o(list(due)), 'prefix %r' % (pre,)))
    return keys, out
