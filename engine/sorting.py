"""The sorter interpreted byte for byte over opaque keys and values: its buffer is a raw allocation (heap.py), chunks
come from the chunk creator component; the files written into chunks are either summarised by their entries or really
written and read back."""
import re
from . import lin as L, grenad as G, merging as M
from .core import *
from .heap import Heap
from .iodom import ioerr


class SortDom(Heap, M.MergeDom):
    """real: chunks hold the bytes the real writer produces and the real reader reads
       lone: shape of the merge function's answer for a single value"""
    param_drops = True

    def __init__(self, P, nkeys, real=False, cow='owned', **kw):
        super().__init__(P, nkeys, cow, **kw)
        self.init_heap()
        self.real = real

    # ------------------------------------------------ dispatch
    def call(self, I, s, c, name, args):
        r = self.heap_call(I, s, c, name, args)
        if r is not None:
            return r
        if name.endswith('ChunkCreator::create') or name.endswith('ChunkCreator>::create'):
            if self.opaque(I, s, args[0], 'cc') is not None:
                return self.create(I, s)
        if not self.real:
            m = re.search(r'(?:^|::)(WriterBuilder::build|Writer::new|WriterBuilder::memory|Writer::insert|Writer::into_inner|Writer::finish|'
                          r'Writer::as_ref|Reader::new|Reader::into_cursor|ReaderCursor::into_reader|Reader::into_inner|ReaderCursor::into_inner|'
                          r'Reader::len|Reader::is_empty)$', name)
            if m:
                r = getattr(self, 'f_' + m.group(1).replace('::', '_'), None)
                r = r(I, s, c, args) if r is not None else None
                if r is not None:
                    return r
        if name.endswith('::into') and name.startswith('std::convert::Into'):
            v = args[0]
            if isinstance(v, tuple) and v[:2] == ('obj', 'ioerr'):
                return [(s, 'ret', ('adt', self.io, (v,)))]
        return super().call(I, s, c, name, args)

    # ------------------------------------------------ chunks
    def create(self, I, s):
        out = []
        for s1, e in self.may_fail(I, s, 'chunk creator'):
            if e is not None:
                out.append((s1, 'ret', err(e)))
                continue
            k = s1.g('created', 0)
            s1.gset('created', k + 1)
            live = self.alive(s1) | {k}
            s1.gset('live', live)
            s1.gset('most', max(s1.g('most', 0), len(live)))
            if self.partial and self.only in (None, k):
                s1.gset(('budget', ('chunk', k)), self.chunk_budget)
            out.append((s1, 'ret', ok(('obj', 'rd', (), 0, ('chunk', k)))))
        return out

    chunk_budget = 1
    only = None        # the number of the one chunk that is disturbed

    def alive(self, s):
        """chunks that were not dropped and still are somewhere in memory"""
        live = s.g('live', frozenset())
        if not live:
            return live
        seen = set()
        for v in s.mem.values():
            seen.update(self.chunks_in(v))
        return live & seen

    def drop_opaque(self, I, s, v, ty):
        """a value of a type parameter dies"""
        for k in self.chunks_in(v):
            s.gset('live', s.g('live', frozenset()) - {k})

    def chunks_in(self, v):
        if not isinstance(v, tuple):
            return
        if v[:2] == ('obj', 'rd') and len(v) == 5 and isinstance(v[4], tuple) and v[4][0] == 'chunk':
            yield v[4][1]
            return
        if v and v[0] in ('ref', 'snap', 'lin'):
            return
        for x in v:
            if isinstance(x, tuple):
                yield from self.chunks_in(x)

    def find_writer(self, I, s, v):
        p = None
        for _ in range(8):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                p = v
                v = I.deref(s, v)
            else:
                break
        if isinstance(v, tuple) and v[:2] == ('obj', 'rd'):
            return p, v
        return super().find_writer(I, s, p if p is not None else v)

    def do_write(self, I, s, c, v, segs, depth=0):
        p, o = self.find_writer(I, s, v)
        if not (o[0] == 'obj' and o[1] == 'rd'):
            return super().do_write(I, s, c, v, segs, depth)
        out = []
        n = seq_len(segs)
        for s1, e in self.may_fail(I, s, 'chunk write'):
            if e is not None:
                out.append((s1, ('err', e)))
                continue
            o = self.find_writer(I, s1, v)[1]
            if s1.facts.prove(L.eq(o[3], seq_len(o[2]))) is not True:
                raise Undecided('writing inside a chunk')
            b = s1.g(('budget', o[4]), 0) if self.partial else 0
            if b > 0:
                s2 = s1.copy()
                s2.gset(('budget', o[4]), b - 1)
                s2.gset('disturbed', True)
                s2.note('the chunk reports an interruption')
                out.append((s2, ('err', ioerr('Interrupted'))))
                for s3, m in I.branch(s1.copy(), lambda x: x.ask(L.lt(1, n))):
                    if m:
                        s3.gset(('budget', o[4]), b - 1)
                        s3.gset('disturbed', True)
                        s3.note('the chunk accepts part of a buffer')
                        k = s3.fresh('acc')
                        s3.range(k, 1, None)
                        s3.assume(L.lt(L.atom(k), n))
                        g = norm_segs(o[2] + I.seq_slice(s3, segs, 0, L.atom(k)))
                        I.write_ptr(s3, p, o[:2] + (g, L.add(o[3], L.atom(k))) + o[4:])
                        out.append((s3, ('n', L.atom(k))))
            g = norm_segs(o[2] + segs)
            I.write_ptr(s1, p, o[:2] + (g, seq_len(g)) + o[4:])
            out.append((s1, ('n', n)))
        return out

    # ------------------------------------------------ summarised files
    def f_WriterBuilder_build(self, I, s, c, args):
        k = s.g('writers', 0)
        s.gset('writers', k + 1)
        return [(s, 'ret', ('obj', 'cw', k, args[1]))]

    def f_Writer_new(self, I, s, c, args):
        return self.f_WriterBuilder_build(I, s, c, (None, args[0]))

    def f_WriterBuilder_memory(self, I, s, c, args):
        return self.f_WriterBuilder_build(I, s, c, (None, ('seq', ())))

    def f_Writer_insert(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cw')
        if o is None:
            return None
        k, v = self.bytes_of(I, s, args[1]), self.bytes_of(I, s, args[2])
        r = self.rank(k)
        if r is None:
            raise Undecided('written key')
        out = []
        for s1, e in self.may_fail(I, s, 'chunk write'):
            if e is not None:
                out.append((s1, 'ret', self.fails_as('writer::Writer::insert', e)))
                continue
            done = s1.g(('content', o[2]), ())
            if done and self.rank(done[-1][0]) >= r:
                out.append((s1, 'panic', 'the writer refuses keys that do not ascend: %s after %s' % (G.show_segs(k), G.show_segs(done[-1][0]))))
                continue
            s1.gset(('content', o[2]), done + ((k, v),))
            out.append((s1, 'ret', ok(UNIT)))
        return out

    def f_Writer_into_inner(self, I, s, c, args):
        o = args[0]
        if not (isinstance(o, tuple) and o[:2] == ('obj', 'cw')):
            return None
        sym = ('file', s.g(('content', o[2]), ()))
        s.range(('len', sym), 22, None)
        cell = s.alloc(o[3])
        out = []
        for s1, k, r in self.do_write_all(I, s, c, ('ref', cell, ()), (('s', sym, 0, L.atom(('len', sym))),)):
            if k == 'ret' and r[1] == 0:
                out.append((s1, 'ret', ok(s1.mem[cell])))
            elif k == 'ret':
                out.append((s1, 'ret', self.fails_as('writer::Writer::into_inner', r[2][0])))
            else:
                out.append((s1, k, r))
        return out

    def f_Reader_new(self, I, s, c, args):
        v = args[0]
        p = None
        for _ in range(6):
            if isinstance(v, tuple) and v[0] == 'ref':
                p = v
                v = I.deref(s, v)
            else:
                break
        if not (isinstance(v, tuple) and v[:2] == ('obj', 'rd') and len(v) == 5):
            return None
        out = []
        for s1, e in self.may_fail(I, s, 'chunk read'):
            if e is not None:
                out.append((s1, 'ret', self.fails_as('reader::Reader::new', e)))
                continue
            g = norm_segs(v[2])
            if not g:
                out.append((s1, 'ret', self.fails_as('reader::Reader::new', ioerr('UnexpectedEof'))))
                continue
            x = g[-1]
            if not (len(g) == 1 and x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'file' and x[2] == 0
                    and x[3] == L.atom(('len', x[1]))):
                raise Undecided('opening a chunk of unknown content')
            out.append((s1, 'ret', ok(('obj', 'cr', x[1][1], args[0]))))
        return out

    def f_Reader_into_cursor(self, I, s, c, args):
        o = args[0]
        if not (isinstance(o, tuple) and o[:2] == ('obj', 'cr')):
            return None
        return [(s, 'ret', ok(('obj', 'cur', ('content',) + o[2], None, o[3])))]

    def f_Reader_len(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cr')
        return None if o is None else [(s, 'ret', len(o[2]))]

    def f_Reader_is_empty(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cr')
        return None if o is None else [(s, 'ret', int(not o[2]))]

    def f_ReaderCursor_into_reader(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cur')
        return None if o is None else [(s, 'ret', ('obj', 'cr', o[2][1:], o[4]))]

    def f_Reader_into_inner(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cr')
        return None if o is None else [(s, 'ret', o[3])]

    def f_ReaderCursor_into_inner(self, I, s, c, args):
        o = self.opaque(I, s, args[0], 'cur')
        return None if o is None else [(s, 'ret', o[4])]

    def entries_of(self, s, sid):
        if isinstance(sid, tuple) and sid[0] == 'content':
            return list(sid[1:])
        return super().entries_of(s, sid)

    # ------------------------------------------------ the merge function: concatenation
    def merged(self, key, vals):
        g = ()
        for v in vals:
            g += v
        return norm_segs(g)


class Cfg:
    """a configuration of the sorter"""

    def __init__(self, realloc=True, chunks=None, algo='Stable', parallel=False, threshold=None, setters=()):
        self.realloc, self.chunks, self.algo, self.parallel, self.threshold, self.setters = realloc, chunks, algo, parallel, threshold, setters

    def show(self):
        r = ['growing buffer' if self.realloc else 'fixed buffer']
        if self.chunks is not None:
            r.append('max_nb_chunks %d' % self.chunks)
        r.append(self.algo.lower() + (' parallel' if self.parallel else ''))
        r += [n for n, _ in self.setters]
        return ', '.join(r)


class Sorting:
    width = 64

    def __init__(self, P, features='all'):
        self.P = P
        f = lambda n: G.fn(P, n, True)
        self.new = f('sorter::SorterBuilder::new')
        self.set = {n: f('sorter::SorterBuilder::' + n) for n in (
            'dump_threshold', 'allow_realloc', 'max_nb_chunks', 'sort_algorithm', 'chunk_creator', 'build', 'chunk_compression_type',
            'chunk_compression_level', 'index_key_interval', 'block_size', 'index_levels')}
        if features == 'all':
            self.set['sort_in_parallel'] = f('sorter::SorterBuilder::sort_in_parallel')
        self.insert = f('sorter::Sorter::insert')
        self.iter = f('sorter::Sorter::into_stream_merger_iter')
        self.stream = f('sorter::Sorter::write_into_stream_writer')
        self.cursors = f('sorter::Sorter::into_reader_cursors')
        self.mg = M.Merging(P)

    def build(self, I, s, cfg):
        """[(state, cell of the sorter)]"""
        outs = [(s1, s1.alloc(self.ret(k, v, 'SorterBuilder::new'))) for s1, k, v in I.run_body(s, self.new, [('obj', 'mf')])]
        steps = [('allow_realloc', int(cfg.realloc)), ('sort_algorithm', ('adt', G.variant_index(self.P, 'SortAlgorithm', cfg.algo), ()))]
        steps.append(('dump_threshold', cfg.threshold if cfg.threshold is not None else 0))
        if cfg.chunks is not None:
            steps.append(('max_nb_chunks', cfg.chunks))
        if cfg.parallel and 'sort_in_parallel' in self.set:
            steps.append(('sort_in_parallel', 1))
        steps += list(cfg.setters)
        for n, v in steps:
            nxt = []
            for s1, b in outs:
                for s2, k, r in I.run_body(s1, self.set[n], [('ref', b, ()), v]):
                    self.ret(k, r, 'SorterBuilder::' + n)
                    nxt.append((s2, b))
            outs = nxt
        res = []
        for s1, b in outs:
            for s2, k, r in I.run_body(s1, self.set['chunk_creator'], [s1.mem[b], ('obj', 'cc')]):
                for s3, k, r in I.run_body(s2, self.set['build'], [self.ret(k, r, 'SorterBuilder::chunk_creator')]):
                    res.append((s3, s3.alloc(self.ret(k, r, 'SorterBuilder::build'))))
        return res

    def ret(self, k, v, what):
        if k != 'ret':
            raise M.Bad('panic', '%s panics: %s' % (what, v))
        return v

    def entries(self, s, script):
        """[(key segs, value segs)] of a script of (key number, value length)"""
        out = []
        for i, (r, n) in enumerate(script):
            k, v = 'k%d' % r, 'v%d' % i
            kl = 12
            s.range(('len', k), kl, kl)
            if n:
                s.range(('len', v), n, n)
            out.append((norm_segs((('s', k, 0, kl),)), (('s', v, 0, n),) if n else ()))
        return out

    def due(self, dom, ents):
        """[(key, [values in insertion order])] ascending"""
        d = {}
        for k, v in ents:
            d.setdefault(dom.rank(k), (k, []))[1].append(v)
        return [d[r] for r in sorted(d)]

    def value_ok(self, got, vals, stable):
        def cat(vs):
            g = ()
            for v in vs:
                g += v
            return norm_segs(g)
        got = norm_segs(got)
        if got == cat(vals):
            return True
        if stable:
            return False
        names = sorted(map(repr, (x for v in vals for x in v)))
        return sorted(map(repr, got)) == names

    def run(self, I, s, cfg, script, route, what):
        """[(kind, text)] of what goes wrong"""
        dom = I.dom
        bad = []
        ents = self.entries(s, script)
        exp = self.due(dom, ents)
        stable = cfg.algo == 'Stable'
        st = self.build(I, s, cfg)
        for i, (k, v) in enumerate(ents):
            nxt = []
            for s1, c in st:
                for s2, kd, r in I.run_body(s1, self.insert, [('ref', c, ()), ('snap', ('seq', k)), ('snap', ('seq', v))]):
                    if self.mg.fault(I, s2, kd, r, 'insert', what, bad):
                        continue
                    if kd != 'ret' or r[1] != 0:
                        if G.feasible(s2):
                            bad.append(('insert-fails', 'insert %d of %s %s' % (i + 1, what, 'panics: %s' % (r,) if kd != 'ret' else 'returns an error although nothing failed')))
                        continue
                    nxt.append((s2, c))
            st = nxt
            if len(st) > self.width:
                raise Undecided('too many cases')
        for s1, c in st:
            v = s1.mem[c]
            s1.kill(c)
            getattr(self, 'out_' + route)(I, s1, v, exp, stable, what, bad)
        return bad

    def out_iter(self, I, s, sorter, exp, stable, what, bad):
        for s1, k, v in I.run_body(s, self.iter, [sorter]):
            if self.mg.fault(I, s1, k, v, 'into_stream_merger_iter', what, bad):
                continue
            if self.failed(I, s1, k, v, 'into_stream_merger_iter', what, bad):
                continue
            self.drain(I, s1, v[2][0], exp, stable, what, bad)

    def failed(self, I, s, k, v, op, what, bad):
        if k == 'ret' and v[1] == 0:
            return False
        if G.feasible(s):
            bad.append(('output-fails', '%s %s on %s' % (op, 'panics: %s' % (v,) if k != 'ret' else 'returns an error although nothing failed', what)))
        return True

    def drain(self, I, s, it, exp, stable, what, bad):
        c = s.alloc(it)
        st = [s]
        for i in range(len(exp) + 1):
            nxt = []
            for s2 in st:
                for s3, k, v in I.run_body(s2, self.mg.next, [('ref', c, ())]):
                    if self.mg.fault(I, s3, k, v, 'MergerIter::next', what, bad):
                        continue
                    if M.dom_lends(I):
                        bad += [('lent', 'MergerIter::next returns a key or value %s, on %s' % (x, what)) for x in G.lent(I, s3, v)]
                    if self.failed(I, s3, k, v, 'next', what, bad):
                        continue
                    v = G.variant(I, s3, v)
                    o = G.variant(I, s3, v[2][0])
                    t = None
                    if i == len(exp):
                        if o[1] != 0:
                            t = 'extra', 'an entry follows all inserted keys'
                    elif o[1] == 0:
                        t = 'missing', 'the output ends although the key %s is due' % G.show_segs(exp[i][0])
                    else:
                        kp, vp = o[2][0][1]
                        t = self.entry(G.settled(s3, I.ptr_seq(s3, kp)), G.settled(s3, I.ptr_seq(s3, vp)), exp[i], stable)
                    if t is None:
                        nxt.append(s3)
                    elif G.feasible(s3):
                        bad.append((t[0], 'output of %s: %s' % (what, t[1])))
            st = nxt
            if len(st) > self.width:
                raise Undecided('too many cases')

    def entry(self, k, v, exp, stable):
        if k != exp[0]:
            return 'key', 'the key %s comes where %s is due' % (G.show_segs(k), G.show_segs(exp[0]))
        if not self.value_ok(v, exp[1], stable):
            return 'value', 'the key %s has the value %s, merged from other values or in another order than %s' % (
                G.show_segs(k), G.show_segs(v), ', '.join(G.show_segs(x) for x in exp[1]))
        return None

    def written(self, I, s, got, exp, stable, what, bad):
        if [k for k, v in got] != [k for k, v in exp]:
            bad.append(('stream-keys', '%s: the keys %s are written where %s are due' % (
                what, [G.show_segs(x[0]) for x in got], [G.show_segs(x[0]) for x in exp])))
            return
        for g, e in zip(got, exp):
            t = self.entry(g[0], g[1], e, stable)
            if t:
                bad.append((t[0], 'output of %s: %s' % (what, t[1])))

    def out_stream(self, I, s, sorter, exp, stable, what, bad):
        w = s.alloc(('obj', 'writer', 'w'))
        for s1, k, v in I.run_body(s, self.stream, [sorter, ('ref', w, ())]):
            if self.mg.fault(I, s1, k, v, 'write_into_stream_writer', what, bad):
                continue
            if self.failed(I, s1, k, v, 'write_into_stream_writer', what, bad):
                continue
            if G.feasible(s1):
                self.written(I, s1, s1.g(('written', 'w'), ()), exp, stable, what, bad)

    def out_cursors(self, I, s, sorter, exp, stable, what, bad):
        for s1, k, v in I.run_body(s, self.cursors, [sorter]):
            if self.mg.fault(I, s1, k, v, 'into_reader_cursors', what, bad):
                continue
            if self.failed(I, s1, k, v, 'into_reader_cursors', what, bad):
                continue
            cs = v[2][0]
            if not (isinstance(cs, tuple) and cs[0] == 'seq' and all(x[0] == 'e' for x in cs[1])):
                raise Undecided('the list of cursors')
            for s2, m in self.mg.merger(I, s1, [x[1] for x in cs[1]], 'builder'):
                for s3, k3, v3 in I.run_body(s2, self.mg.iter, [m]):
                    if self.mg.fault(I, s3, k3, v3, 'Merger::into_stream_merger_iter', what, bad):
                        continue
                    if self.failed(I, s3, k3, v3, 'Merger::into_stream_merger_iter', what, bad):
                        continue
                    self.drain(I, s3, v3[2][0], exp, stable, what, bad)
