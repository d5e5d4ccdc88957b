"""ReaderCursor over an arbitrary file (index-tree domain).

Loading a block at an offset yields the block the offset designates; the block-level cursor operations are replaced by
their contract (established separately over arbitrary blocks). From a fresh cursor every public operation is applied
to every reachable abstract cursor state until no new one appears; results are compared with the entry determined by
the logical position, and block loads are counted."""
import time
from . import lin as L, grenad as G
from .core import *
from .models import vderef
from .blockcur import ent_key, ent_val, Worlds
from .tree import Tree, ETAGS
from .zones import walk_refs, rename_refs

OPS = {'first': 'move_on_first', 'last': 'move_on_last', 'next': 'move_on_next', 'prev': 'move_on_prev',
       'ge': 'move_on_key_greater_than_or_equal_to', 'le': 'move_on_key_lower_than_or_equal_to',
       'eq': 'move_on_key_equal_to', 'current': 'current', 'reset': 'reset', 'clone': 'clone'}
SEEKS = ('ge', 'le', 'eq')
BOPS = {'move_on_first': 'first', 'move_on_last': 'last', 'move_on_next': 'next', 'move_on_prev': 'prev',
        'move_on_key_greater_than_or_equal_to': 'ge', 'move_on_key_lower_than_or_equal_to': 'le', 'current': 'current'}
FRESH, LOST = ('fresh',), ('lost',)
PROBE = ('snap', ('seq', (('s', ('probe', 'q'), 0, L.atom(('len', ('probe', 'q')))),)))


def boff(e):
    return L.atom(('boff', e))


class TreeDom(Worlds, Dom):
    record = None

    def __init__(self, P, tree, bound):
        self.P, self.tree, self.bound = P, tree, bound
        self.over = lambda s: None

    # -- reader and blocks
    def load(self, I, s):
        """block at the current reader position"""
        pos = s.g('rpos')
        s.gset('loads', s.g('loads', 0) + 1)
        if s.g('loads') > self.bound:
            self.over(s)
            if s.g('loads') > self.bound + 6:
                raise Infeasible()
        if not isinstance(pos, tuple):
            raise Undecided('read at unknown position')
        e = pos[1]
        b = 1 if e == 'root' else self.tree.child(s, e)
        s.gset('rpos', ('after', e))
        return ('obj', 'blk', ('blk', b))

    def bc(self, I, s, v):
        """(pointer, object) of a block cursor argument"""
        p = v
        while True:
            o = I.deref(s, p)
            if isinstance(o, tuple) and o[0] in ('ref', 'snap'):
                p = o
                continue
            break
        if isinstance(o, tuple) and o[:2] == ('obj', 'bc'):
            return p, o
        raise Undecided('block cursor')

    def entry(self, s, e):
        """(key, value) of an entry: index entries hold the offset of their child"""
        if self.tree.is_data(s, e // 1000):
            return some(('tup', (ent_key(e), ent_val(e))))
        return some(('tup', (ent_key(e), ('snap', ('seq', (('n', 'be', 8, boff(e)),))))))

    def bop(self, I, s, op, args):
        p, o = self.bc(I, s, args[0])
        b, pos = o[2][1], o[3]
        t = self.tree
        if op == 'current':
            if pos == LOST:
                raise Undecided('current() after a block-level None')
            return NONE if pos == FRESH else self.entry(s, pos[1])
        if op == 'first':
            e = t.first(s, b)
        elif op == 'last':
            e = t.last(s, b)
        elif op in ('next', 'prev'):
            if pos == LOST:
                raise Undecided('relative move after a block-level None')
            if pos == FRESH:
                e = t.first(s, b) if op == 'next' else t.last(s, b)
            else:
                e = t.succ(s, pos[1]) if op == 'next' else t.pred(s, pos[1])
        else:
            q = self.name_of(I.ptr_seq(s, args[1]))
            if q is None or q[0] != 'probe':
                raise Undecided('seek with an unknown key')
            e = t.ge(s, b, q[1]) if op == 'ge' else t.le(s, b, q[1])
        trace = ()
        if self.record is not None:
            trace = ((o[4] if len(o) > 4 else ()) + (op,),)
            if op != 'current':
                self.record.add(trace[0])
        I.write_ptr(s, p, o[:3] + (LOST if e is None else ('pos', e),) + trace)
        return NONE if e is None else self.entry(s, e)

    def call(self, I, s, c, name, args):
        m = name.rsplit('::', 1)
        if len(m) == 2 and m[1] in BOPS and m[0].endswith('BlockCursor') and not m[0].endswith('IndexBlockCursor'):
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.bop(I, x, BOPS[m[1]], args))]
        if name.endswith('block::Block::new'):
            return [(x, 'ret', ok(v)) for x, v in I.branch(s, lambda x: self.load(I, x))]
        if name.endswith('block::Block::read_from'):
            def f(x):
                I.write_ptr(x, args[0], self.load(I, x))
            return [(x, 'ret', ok(UNIT)) for x, v in I.branch(s, f)]
        if name.endswith(('block::Block::into_cursor', 'block::BlockCursor::new')):
            v = args[0]
            if v[:2] != ('obj', 'blk'):
                raise Undecided('block')
            return [(s, 'ret', ('obj', 'bc', v[2], FRESH))]
        if name == 'std::io::Seek::seek':
            return self.seek(I, s, args)
        tr = c.get('trait')
        if tr == 'std::convert::AsRef' or name == 'std::convert::AsRef::as_ref':
            v = args[0]
            for _ in range(4):
                x = I.deref(s, v)
                if isinstance(x, tuple) and x[0] in ('ref', 'snap'):
                    v = x
                    continue
                break
            if isinstance(x, tuple) and x[0] == 'seq':
                return [(s, 'ret', v)]
        if tr == 'std::clone::Clone' and args:
            x = vderef(I, s, args[0])
            if isinstance(x, tuple) and x[0] == 'obj':
                return [(s, 'ret', x)]
        return None

    def seek(self, I, s, args):
        v = args[1]
        if v[0] != 'adt' or v[1] != 0:
            raise Undecided('relative file position')
        o = v[2][0]

        def f(s):
            o2 = I.as_num(o)
            if isinstance(o2, tuple) and o2[0] == 'lin' and o2[1] == 0 and len(o2[2]) == 1 and o2[2][0][1] == 1 \
                    and o2[2][0][0][0] == 'boff':
                s.gset('rpos', ('boff', o2[2][0][0][1]))
                return ok(o)
            raise Undecided('file position arithmetic')
        return [(x, 'ret', v) for x, v in I.branch(s, f)]

    # -- keys and offsets
    def name_of(self, g):
        g = norm_segs(g)
        if len(g) == 1 and g[0][0] == 's' and g[0][2] == 0 and isinstance(g[0][1], tuple) and g[0][1][0] in ('key', 'probe') \
                and g[0][3] == L.atom(('len', g[0][1])):
            return g[0][1]
        return None

    def cmp_bytes(self, I, s, a, b):
        x, y = self.name_of(a), self.name_of(b)
        if x is None or y is None:
            return None
        if x == y:
            return 0
        if x[0] == 'key' and y[0] == 'key':
            if x[1] // 1000 == y[1] // 1000:
                z = self.tree.nodes(s, x[1] // 1000)
                i, j = self.tree.index(z, x[1]), self.tree.index(z, y[1])
                return (i > j) - (i < j)
            raise Undecided('keys of different blocks')
        if x[0] == 'key':
            return self.tree.cmp(s, x[1], y[1])
        return -self.tree.cmp(s, y[1], x[1])

    def eq_bytes(self, I, s, a, b):
        r = self.cmp_bytes(I, s, a, b)
        return None if r is None else r == 0

    def smallest(self, s, n):
        """is the name certainly the smallest of the file's keys and probes?"""
        b = n[1] // 1000 if n[0] == 'key' else 1
        while True:
            z = s.g(('zb', b))
            if not z:
                return n[0] == 'probe'
            if z[0][0] == 'Q':
                return n[0] == 'probe' and n[1] in z[0][1]
            if z[0][0] != 'E':
                return False
            e = z[0][1]
            if self.tree.is_data(s, b):
                if n[0] == 'key' and e != n[1] or n[0] == 'probe' and n[1] not in z[0][2]:
                    return False
                while s.g(('up', b)) is not None:
                    e = s.g(('up', b))
                    b = e // 1000
                    if not (s.g(('zb', b))[0][0] == 'E' and s.g(('zb', b))[0][1] == e):
                        return False
                return True
            b = s.g(('ch', e))
            if b is None:
                return False

    def off_of(self, v):
        if isinstance(v, tuple) and v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][0] == 'boff':
            return v[2][0][0][1]
        return None

    def compare(self, I, s, op, a, b):
        x, y = self.off_of(a), self.off_of(b)
        if x is not None and y is not None and op in ('Eq', 'Ne'):
            return int((x == y) == (op == 'Eq'))
        if x is not None or y is not None:
            if op in ('Eq', 'Ne') and x is not None and isinstance(b, int) or y is not None and isinstance(a, int):
                raise Undecided('block offset against a constant')
            if x is not None and y is not None:
                raise Undecided('order of block offsets')
        return None


class Explorer:
    record = None

    def __init__(self, P, levels, deadline, exact=False, props=(), gate=None, version=2, world='anti'):
        self.gate, self.version, self.world = gate, version, world
        self.props = props
        self.P, self.levels, self.deadline, self.exact = P, levels, deadline, exact
        self.viol = {}
        self.stats = [0, 0]
        self.maxloads = 0
        self.hits = set()

    def prepare(self):
        P = self.P
        self.new = G.fn(P, 'ReaderCursor::new')
        into = G.fn(P, 'Reader::into_cursor', True)
        self.new = self.new or into
        self.bodies = {}
        for o, m in OPS.items():
            if o == 'clone':
                b = P.root('<reader::reader_cursor::ReaderCursor as std::clone::Clone>::clone')
                if b is None:
                    c = [b for b in P.roots if b['np'].endswith('ReaderCursor as std::clone::Clone>::clone')]
                    b = c[0] if len(c) == 1 else None
                if b is not None:
                    self.bodies[o] = b
                continue
            self.bodies[o] = G.fn(P, 'ReaderCursor::' + m, True)
        self.tree = Tree(self.levels)
        self.bound = 2 * (self.levels + 2)
        self.dom = TreeDom(P, self.tree, self.bound)
        self.dom.world = self.world
        self.dom.record = self.record
        self.I = Interp(P, self.dom, overflow='assume', max_steps=40000000)
        self.I.deadline = self.deadline

    def metadata(self):
        """a Metadata value: base offset root, levels, any codec"""
        P = self.P
        fs = G.fields(P, 'metadata::Metadata')
        if fs is None:
            raise Undecided('metadata type')
        vals = []
        for n, t in fs:
            if 'offset' in n:
                vals.append(boff('root'))
            elif 'level' in n:
                vals.append(self.levels)
            elif 'FileVersion' in t:
                vals.append(('adt', G.variant_index(P, 'FileVersion', 'FormatV%d' % self.version), ()))
            elif 'CompressionType' in t:
                vals.append(('obj', 'ctype'))
            elif 'count' in n:
                vals.append(L.atom(('u', 'count')))
            else:
                raise Undecided('metadata field ' + n)
        return ('adt', 0, tuple(vals))

    def reader(self):
        fs = G.fields(self.P, 'reader::Reader')
        if fs is None:
            raise Undecided('reader type')
        md = self.metadata()
        return ('adt', 0, tuple(md if t.endswith('Metadata') else ('obj', 'file') for n, t in fs))

    def init_state(self, empty):
        s = State()
        self.tree.setup(s, empty)
        s.gset('rpos', 'unknown')
        s.gset('loads', 0)
        return s

    def fresh(self, empty):
        outs = self.I.run_body(self.init_state(empty), self.new, [self.reader()])
        rets, _ = G.oks(outs)
        if len(rets) != 1 or rets[0][1][0] != 'adt' or rets[0][1][1] != 0:
            raise Undecided('cursor construction')
        s, v = rets[0]
        if s.g('loads'):
            raise Undecided('construction loads blocks')
        return s, v[2][0]

    def snapshot(self, s, val, pos, mode):
        """canonical (value, ghost items, pos)"""
        s2 = State()
        s2.ghost = dict(s.ghost)
        s2.ghost['loads'] = 0
        keep, blocks = set(), set()
        rp = s2.ghost['rpos']
        rp = rp if isinstance(rp, tuple) and rp[0] == 'boff' else 'unknown'
        s2.ghost['rpos'] = rp
        for v in (val, rp):
            walk_refs(v, ETAGS, keep)
            walk_refs(v, ('blk',), blocks)
        if isinstance(pos, int):
            keep.add(pos)
        eren, bren = self.tree.fold(s2, keep, blocks, self.exact)

        def rn(v):
            return rename_refs(rename_refs(v, ETAGS, eren), ('blk',), bren)
        s2.ghost['rpos'] = rn(rp)
        g = frozenset(s2.ghost.items())
        return rn(val), g, eren.get(pos, pos)

    def run(self, max_states=100000, script=None):
        """BFS; with script (a tuple of operations) only that sequence is followed"""
        self.prepare()
        todo = []
        for empty in (False, True):
            s, v = self.fresh(empty)
            todo.append(self.snapshot(s, v, None, None) + ((),))
        seen = set()
        while todo:
            val, g, pos, hist = todo.pop(0)
            k = (val, g, pos) + ((len(hist),) if script is not None else ())
            if k in seen:
                continue
            seen.add(k)
            self.stats[0] += 1
            if any(x[0] in self.props for x in self.viol):
                self.deadline = min(self.deadline, time.time() + 10)
            if time.time() > self.deadline or self.stats[0] > max_states:
                self.I.und('time budget')
                break
            self.I.deadline = self.deadline
            ops = self.bodies
            if script is not None:
                if len(hist) >= len(script):
                    continue
                ops = {script[len(hist)]: self.bodies[script[len(hist)]]}
            for op, body in ops.items():
                if self.gate is not None and not self.gate(pos, op):
                    continue
                if pos == 'lost' and op in ('next', 'prev', 'current'):
                    continue
                if pos is None and op == 'current':
                    pass
                s = State()
                s.ghost = dict(g)
                c = s.alloc(val)
                args = [('ref', c, ())]
                self.dom.over = lambda x, op=op, hist=hist, pos=pos: self.overload(x, op, hist + (op,), pos)
                if op in SEEKS:
                    args.append(PROBE)
                try:
                    outs = self.I.run_body(s, body, args)
                except Undecided as e:
                    self.I.und(str(e), body['np'])
                    continue
                self.stats[1] += 1
                for s2, kind, v in outs:
                    if op in ('reset', 'clone', 'current'):
                        self.judge_aux(s2, kind, v, op, c, val, pos, hist, todo)
                    else:
                        self.judge(s2, kind, v, op, c, pos, hist, todo)

    def expected(self, s, op, pos):
        t = self.tree
        if op == 'first':
            return t.leaf_first(s, 1)
        if op == 'last':
            return t.leaf_last(s, 1)
        if op == 'next':
            return t.leaf_first(s, 1) if pos is None else t.leaf_step(s, pos, True)
        if op == 'prev':
            return t.leaf_last(s, 1) if pos is None else t.leaf_step(s, pos, False)
        e = t.leaf_ge(s, 'q')
        if op == 'ge':
            return e
        if e is not None and t.cmp(s, e, 'q') == 0:
            return e
        if op == 'eq':
            return None
        if e is None:
            return t.leaf_last(s, 1)
        return t.leaf_step(s, e, False)

    def result(self, s, v):
        """entry id, None, 'bad' or False (shape unknown)"""
        I = self.I
        if not (isinstance(v, tuple) and v[0] == 'adt'):
            return False
        if v[1] == 0:
            return None
        t = v[2][0]
        try:
            k = norm_segs(I.ptr_seq(s, t[1][0]))
            w = norm_segs(I.ptr_seq(s, t[1][1]))
        except (Undecided, IndexError, TypeError):
            return False
        n = self.dom.name_of(k)
        if n is None or n[0] != 'key':
            return 'bad'
        e = n[1]
        if not self.tree.is_data(s, e // 1000):
            return 'bad'
        if norm_segs(I.ptr_seq(s, ent_val(e))) != w:
            return 'bad'
        return e

    def judge(self, s, kind, v, op, c, pos, hist, todo):
        I = self.I
        where = 'ReaderCursor::' + OPS[op]
        h2 = hist + (op,)
        self.dub = self.dom.dubious(s)
        if kind == 'panic':
            self.report('C03', where + ' panics', '%s panics: %s' % (where, v), h2, s, pos)
            return
        n = s.g('loads')
        self.maxloads = max(self.maxloads, n)
        if not (isinstance(v, tuple) and v[0] == 'adt'):
            I.und('result shape', where)
            return
        if v[1] != 0:
            self.report('C03', where + ' fails', '%s returns an error although no component failed' % where, h2, s, pos)
            return
        got0 = v[2][0]
        try:
            res = I.branch(s, lambda x: self.expected(x, op, pos))
        except Undecided as e:
            I.und('specification: ' + str(e), where)
            return
        for s2, exp in res:
            got = self.result(s2, got0)
            if got is False:
                I.und('result shape', where)
                continue
            if got != exp:
                self.report('C03', where + ' wrong entry', '%s returns %s where %s is due' % (
                    where, self.name(got), self.name(exp)), h2, s2, pos)
                if pos is None and op in SEEKS:
                    self.report('C02', where + ' wrong entry', '%s on a fresh or reset cursor returns %s where %s is due' % (
                        where, self.name(got), self.name(exp)), h2, s2, pos)
                continue
            self.hits.add((op, 'none' if exp is None else 'entry'))
            todo.append(self.snapshot(s2, s2.mem[c], 'lost' if exp is None else exp, None) + (h2,))

    def overload(self, s, op, hist, pos):
        where = 'ReaderCursor::' + OPS[op]
        self.dub = self.dom.dubious(s)
        self.report('C16', where + ' loads', '%s loads more than 2 x (%d + 2) blocks' % (where, self.levels), hist, s, pos)

    def judge_aux(self, s, kind, v, op, c, val, pos, hist, todo):
        where = 'ReaderCursor::' + OPS[op]
        self.dub = self.dom.dubious(s)
        h2 = hist + (op,)
        if kind == 'panic':
            self.report('C03', where + ' panics', '%s panics: %s' % (where, v), h2, s, pos)
            return
        if op == 'current':
            got = self.result(s, v)
            if got is False:
                self.I.und('result shape', where)
            elif got != pos:
                self.report('C03', where + ' wrong entry', 'current() returns %s while the last returned entry is %s' % (
                    self.name(got), self.name(pos)), h2, s, pos)
            return
        if op == 'reset':
            todo.append(self.snapshot(s, s.mem[c], None, None) + (h2,))
            return
        todo.append(self.snapshot(s, s.mem[c], pos, None) + (h2,))
        todo.append(self.snapshot(s, v, pos, None) + (h2,))

    def name(self, e):
        if e is None:
            return 'None'
        if e == 'bad':
            return 'bytes that are no entry of the file'
        return 'entry e%s' % e

    dub = False

    def report(self, prop, key, text, hist, s, pos):
        if self.dub:
            self.I.und('outcome rests on key lengths', key)
            return
        text = '%s after %s on tree %s' % (text, '>'.join(hist[:-1]) or 'creation', self.tree.show(s))
        if isinstance(pos, int):
            text += ' (position e%d)' % pos
        self.viol.setdefault((prop, key), (text, hist))


def explore(P, levels, deadline, budget_confirm=100, props=(), gate=None, version=2):
    """explorer for one index depth with confirmed violations only: (explorer, {(prop,key): text}, unconfirmed)"""
    e = Explorer(P, levels, deadline, props=props, gate=gate, version=version)
    e.run()
    viol = {k: x + ('anti',) for k, x in e.viol.items()}
    if e.dom.asked:
        e2 = Explorer(P, levels, deadline + 60, props=props, gate=gate, version=version, world='chain')
        e2.run()
        for k, x in e2.viol.items():
            viol.setdefault(k, x + ('chain',))
        for k, n in e2.I.undecided.items():
            e.I.undecided[k] = e.I.undecided.get(k, 0) + n
    conf, unconf = {}, {}
    end = time.time() + budget_confirm
    done = {}
    for k, (text, hist, world) in sorted(viol.items(), key=lambda x: len(x[1][1])):
        if k[0] not in props:
            continue
        if time.time() > end or done.get(k[0], 0) >= 2:
            unconf[k] = text
            continue
        x = Explorer(P, levels, min(end, time.time() + 60), exact=True, gate=gate, version=version, world=world)
        try:
            x.run(script=hist)
        except Undecided:
            pass
        if k in x.viol:
            conf[k] = x.viol[k][0] + (' where every key is a prefix of all greater ones' if world == 'chain' else '')
            done[k[0]] = done.get(k[0], 0) + 1
        else:
            unconf[k] = text
    return e, conf, unconf


def sequences(P, levels, deadline):
    """the sequences of operations that seeks from a fresh cursor apply to the cursors of freshly loaded blocks"""
    out = set()
    for op in SEEKS:
        x = Explorer(P, levels, deadline, exact=True)
        x.record = out
        try:
            x.run(script=(op,))
        except Undecided:
            pass
    return out
