"""BlockCursor over an arbitrary block (ordered-entry domain).

The block is any sorted list of entries with any sparse offset table that marks the first entry. `Block::entry_at`
is the primitive (its correctness is C14); everything above it is interpreted. Exploration: from a fresh cursor the
operations are applied to every reachable abstract cursor state until no new state appears."""
import time
from . import lin as L, grenad as G
from .core import *
from .models import inner_ptr, vderef, gcmp
from .zones import Zones, walk_refs, rename_refs

TAGS = ('off', 'nxt', 'key', 'val', 'ix', 'ixa')
OFFTAGS = TAGS


def off(i):
    return L.atom(('off', i))


def ent_key(i):
    return ('snap', ('seq', (('s', ('key', i), 0, L.atom(('len', ('key', i)))),)))


def ent_val(i):
    return ('snap', ('seq', (('s', ('val', i), 0, L.atom(('len', ('val', i)))),)))


def rename_facts(f, tags, ren):
    def bad(a):
        r = set()
        walk_refs(a, tags, r)
        return any(x not in ren and not isinstance(x, str) for x in r)
    rng = {rename_refs(a, tags, ren): v for a, v in f.rng.items() if not bad(a)}
    ineq = frozenset(rename_refs(q, tags, ren) for q in f.ineq if not bad(q))
    ne = frozenset(rename_refs(q, tags, ren) for q in f.ne if not bad(q))
    b = {rename_refs(a, tags, ren): v for a, v in f.b.items() if not bad(a)}
    return L.Facts(rng, ineq, ne, b)


class Worlds:
    """Which keys are prefixes of which is not settled by their order, so questions about prefixes are answered in two
    worlds, each realised by actual keys: 'anti' (no key or probe starts with a smaller one) and 'chain' (each starts
    with all smaller ones). The second is only explored when the first met such a question."""
    world = 'anti'
    asked = False

    def prefix_bytes(self, I, s, a, b):
        x, y = self.name_of(norm_segs(a)), self.name_of(norm_segs(b))
        if x is None or y is None:
            return None
        r = self.cmp_bytes(I, s, a, b)
        if r is None:
            return None
        if r > 0:
            self.asked = True
            s.gset('pfx', True)
            return self.world == 'chain'
        return r == 0

    def dubious(self, s):
        """the outcome rests on lengths that the order or the prefixes may contradict"""
        for q in s.facts.ineq | s.facts.ne:
            n = [a for a, _ in q[2] if isinstance(a, tuple) and a[0] == 'len' and isinstance(a[1], tuple) and a[1][0] in ('key', 'probe')]
            if n and s.g('pfx') or len(n) > 1:
                return True
        for a, (lo, hi) in s.facts.rng.items():
            if isinstance(a, tuple) and a[0] == 'len' and isinstance(a[1], tuple) and a[1][0] in ('key', 'probe') and hi is not None \
                    and hi < 1 << 31 and (s.g('pfx') or not (hi == 0 and self.smallest(s, a[1]))):
                return True
        return False


class ZoneDom(Worlds, Dom):
    """entries named by ids; keys ('key', id), probes ('probe', q)"""
    tags = TAGS

    def smallest(self, s, n):
        z = self.Z.get(s)
        for x in z:
            if x[0] == 'Q' and n == ('probe', n[1]) and n[1] in x[1]:
                return True
            if x[0] == 'E':
                return x[1] == n[1] if n[0] == 'key' else n[1] in x[3]
            return False
        return False

    def __init__(self, zones):
        self.Z = zones
        self.lock = 0

    def fold_state(self, I, s, extra=()):
        keep = set(extra)
        for k, v in s.mem.items():
            walk_refs(v, self.tags, keep)
        for k, v in s.ghost.items():
            if k != self.Z.key:
                walk_refs(v, self.tags, keep)
        ren = self.Z.fold(s, keep)
        full = dict(ren)
        for k in list(s.mem):
            v = s.mem[k]
            w = rename_refs(v, self.tags, full)
            if w != v:
                s.set(k, w)
        g = {k: (v if k == self.Z.key else rename_refs(v, self.tags, full)) for k, v in s.ghost.items()}
        s.ghost = g
        s.facts = rename_facts(s.facts, self.tags, full)
        return full

    def at_loop(self, I, s, body, bb):
        if not self.lock and self.Z.key in s.ghost:
            self.fold_state(I, s)

    # byte strings
    def name_of(self, g):
        g = norm_segs(g)
        if len(g) == 1 and g[0][0] == 's' and g[0][2] == 0 and isinstance(g[0][1], tuple) and g[0][1][0] in ('key', 'probe') \
                and g[0][3] == L.atom(('len', g[0][1])):
            return g[0][1]
        return None

    def cmp_bytes(self, I, s, a, b):
        x, y = self.name_of(a), self.name_of(b)
        if x is None or y is None:
            return None
        if x[0] == 'key' and y[0] == 'key':
            return self.Z.cmp_entry(s, x[1], y[1])
        if x[0] == 'key':
            return self.Z.cmp_probe(s, x[1], y[1])
        if y[0] == 'key':
            return -self.Z.cmp_probe(s, y[1], x[1])
        return self.Z.cmp_probes(s, x[1], y[1])

    def eq_bytes(self, I, s, a, b):
        r = self.cmp_bytes(I, s, a, b)
        return None if r is None else r == 0


class BlockDom(ZoneDom):
    def __init__(self, P, zones, entry_at):
        super().__init__(zones)
        self.entry_at = entry_at
        self.offs_field = G.field_by_ty(P, 'block::Block', lambda n, t: 'Vec<u64>' in t)

    def call(self, I, s, c, name, args):
        if name == self.entry_at:
            p = inner_ptr(I, s, args[0])
            if I.deref(s, p) != ('obj', 'block'):
                return None
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.do_entry_at(I, x, args[1]))]
        if name == 'std::borrow::Borrow::borrow' or name.endswith(' as std::borrow::Borrow>::borrow'):
            return [(s, 'ret', args[0])]
        return None

    def at_off(self, I, s, o):
        """the entry at offset value o, END, or None when the value is not an entry offset"""
        o = I.as_num(o)
        if isinstance(o, tuple) and o[0] == 'lin' and o[1] == 0 and len(o[2]) == 1 and o[2][0][1] == 1:
            a = o[2][0][0]
            if a[0] == 'off':
                return a[1]
            if a[0] == 'nxt':
                j = self.Z.succ(s, a[1])
                return END_ if j is None else j
        if o == 0:
            j = self.Z.first(s)
            return END_ if j is None else j
        raise Undecided('offset arithmetic')

    def do_entry_at(self, I, s, o):
        i = self.at_off(I, s, o)
        if i == END_:
            return NONE
        return some(('tup', (ent_key(i), ent_val(i), L.atom(('nxt', i)))))

    def field(self, I, s, v, i):
        if v == ('obj', 'block') and i == self.offs_field:
            return ('obj', 'offs')
        return None

    def length(self, I, s, v):
        if v == ('obj', 'offs'):
            # an empty block still has the one-element table [0]
            return ('obj', 'ix', END_) if self.Z.entries(self.Z.get(s)) else 1
        return None

    # positions in the offset table: ('obj','ix', id | END_), ('obj','ixa', id) = one past id's
    def norm_ix(self, I, s, v):
        if isinstance(v, tuple) and v[0] == 'obj' and v[1] == 'ixa':
            z = self.Z.get(s)
            m = self.Z.mark_after(s, self.Z.index(z, v[2]))
            return ('obj', 'ix', END_ if m is None else m)
        if v == 0 and isinstance(v, int):
            m = self.Z.first(s)
            return ('obj', 'ix', END_ if m is None else m)
        if isinstance(v, int) and 0 < v <= 3 and self.Z.entries(self.Z.get(s)):
            m = self.Z.first(s)
            for _ in range(v):
                if m is None:
                    raise Undecided('position past the table')
                m = self.Z.mark_after(s, self.Z.index(self.Z.get(s), m))
            return ('obj', 'ix', END_ if m is None else m)
        return v

    def ix_rank(self, I, s, v):
        z = self.Z.get(s)
        if v[1] == 'ixa':
            return (self.Z.index(z, v[2]), 1)
        if v[2] == END_:
            return (len(z), 0)
        return (self.Z.index(z, v[2]), 0)

    def prev_ix(self, I, s, v):
        if v[1] == 'ixa':
            return ('obj', 'ix', v[2])
        z = self.Z.get(s)
        k = len(z) if v[2] == END_ else self.Z.index(z, v[2])
        m = self.Z.mark_before(s, k)
        if m is None:
            if v[2] == END_ and not self.Z.entries(z):
                return ('obj', 'ix', END_)
            return None
        return ('obj', 'ix', m)

    def arith(self, I, s, op, a, b):
        if isinstance(a, tuple) and a[:2] in (('obj', 'ix'), ('obj', 'ixa')) and b == 0 and op in ('Add', 'Sub'):
            return a
        if isinstance(a, tuple) and a[:2] in (('obj', 'ix'), ('obj', 'ixa')) and b == 1:
            if op == 'Sub':
                r = self.prev_ix(I, s, a)
                if r is None:
                    raise Panic('attempt to subtract with overflow')
                return r
            if op == 'Add':
                a = self.norm_ix(I, s, a)
                if a[2] == END_:
                    raise Undecided('past the end')
                return ('obj', 'ixa', a[2])
        raise Undecided('index arithmetic')

    def checked(self, I, s, op, a, b):
        if op == 'Sub' and b == 1 and a[1] in ('ix', 'ixa'):
            r = self.prev_ix(I, s, a)
            return NONE if r is None else some(r)
        raise Undecided('index arithmetic')

    def compare(self, I, s, op, a, b):
        x, y = a, b
        ox = isinstance(x, tuple) and x[0] == 'obj' and x[1] in ('ix', 'ixa')
        oy = isinstance(y, tuple) and y[0] == 'obj' and y[1] in ('ix', 'ixa')
        if ox or oy:
            x, y = self.norm_ix(I, s, x), self.norm_ix(I, s, y)
            if not (isinstance(x, tuple) and isinstance(y, tuple)):
                raise Undecided('index comparison')
            rx, ry = self.ix_rank(I, s, x), self.ix_rank(I, s, y)
            return self.truth(op, (rx > ry) - (rx < ry))
        if self.is_off(a) or self.is_off(b):
            i, j = self.at_off(I, s, a), self.at_off(I, s, b)
            z = self.Z.get(s)
            ri = len(z) if i == END_ else self.Z.index(z, i)
            rj = len(z) if j == END_ else self.Z.index(z, j)
            return self.truth(op, (ri > rj) - (ri < rj))
        return None

    def is_off(self, v):
        return isinstance(v, tuple) and v[0] == 'lin' and any(a[0] in ('off', 'nxt') for a, _ in v[2] if isinstance(a, tuple))

    def truth(self, op, c):
        return int({'Eq': c == 0, 'Ne': c != 0, 'Lt': c < 0, 'Le': c <= 0, 'Gt': c > 0, 'Ge': c >= 0}[op])

    def offs_at(self, v):
        return ('snap', L.atom(('off', v[2])))

    def element(self, I, s, v, idx):
        if v != ('obj', 'offs'):
            return None
        if not self.Z.entries(self.Z.get(s)):
            if idx == 0:
                return L.atom(('off', END_))
            if isinstance(idx, int):
                raise Panic('index out of bounds')
            raise Undecided('table index')
        x = self.norm_ix(I, s, idx)
        if not (isinstance(x, tuple) and x[:2] == ('obj', 'ix')):
            raise Undecided('table index')
        if x[2] == END_:
            raise Panic('index out of bounds')
        return off(x[2])

    def index(self, I, s, p, idx, opt):
        if vderef(I, s, p) != ('obj', 'offs'):
            return None

        def f(s):
            try:
                r = ('snap', self.element(I, s, ('obj', 'offs'), idx))
            except Panic:
                if opt:
                    return NONE
                raise
            return some(r) if opt else r
        return [(x, 'ret', v) for x, v in I.branch(s, f)]

    def seq_end(self, I, s, p, last):
        if vderef(I, s, p) != ('obj', 'offs'):
            return None
        z = self.Z.get(s)
        if not self.Z.entries(z):
            return some(('snap', L.atom(('off', END_))))
        if last:
            return some(('snap', off(self.Z.mark_before(s, len(z)))))
        return some(('snap', off(self.Z.first(s))))

    def binary_search(self, I, s, p, how):
        if vderef(I, s, p) != ('obj', 'offs'):
            return None
        z = self.Z.get(s)
        ents = self.Z.entries(z)
        st = s
        if not ents:
            # table [0] over an empty payload
            cands = [('end', None)]
        else:
            cands = [(x[1], x) for x in ents]
        self.lock += 1
        try:
            res = []
            for i, node in cands:
                elem = ('snap', L.atom(('off', END_ if node is None else i)))
                if how[0] == 'val':
                    o = vderef(I, st, how[1])
                    t = self.at_off(I, st, o)
                    zz = self.Z.get(st)
                    ri = len(zz) if node is None else self.Z.index(zz, i)
                    rt = len(zz) if t == END_ else self.Z.index(zz, t)
                    res.append((ri > rt) - (ri < rt))
                    continue
                if how[0] == 'pp':
                    outs = I.call_value(st, how[1], [elem])
                elif how[0] == 'key':
                    outs = I.call_value(st, how[2], [elem])
                else:
                    outs = I.call_value(st, how[1], [elem])
                if len(outs) != 1 or outs[0][1] != 'ret':
                    raise Undecided('search closure')
                st, _, v = outs[0]
                if how[0] == 'pp':
                    if isinstance(v, tuple):
                        raise Undecided('partition predicate')
                    res.append(-1 if v else 1)
                elif how[0] == 'key':
                    res.append(struct_cmp(I, st, v, vderef1(I, st, how[1])))
                else:
                    res.append({0: -1, 1: 0, 2: 1}[v[1]])
        finally:
            self.lock -= 1
        if any(x > y for x, y in zip(res, res[1:])):
            raise Undecided('search over an unordered view')
        if not ents:
            if how[0] == 'pp':
                return [(st, 'ret', 0 if res[0] > 0 else 1)]
            return [(st, 'ret', ('adt', 0, (0,)) if res[0] == 0 else ('adt', 1, (0 if res[0] > 0 else 1,)))]

        def f(x):
            z = self.Z.get(x)
            # a marked entry comparing equal
            eqs = [i for (i, n), r in zip(cands, res) if r == 0]
            for i in eqs:
                n = z[self.Z.index(z, i)]
                if n[0] == 'R':
                    raise Undecided('search hits a run')
                if self.Z.marked(x, i) and how[0] != 'pp':
                    return ('adt', 0, (('obj', 'ix', i),))
            ups = [i for (i, n), r in zip(cands, res) if r > 0 or (r == 0)]
            k = len(z)
            for i in ups:
                try:
                    k = min(k, self.Z.index(z, i))
                except Undecided:
                    pass
            # eq entries are unmarked here, skip over them
            m = self.Z.mark_before(x, self.low_bound(z, cands, res))
            v = 0 if m is None else ('obj', 'ixa', m)
            return v if how[0] == 'pp' else ('adt', 1, (v,))
        return [(x, 'ret', v) for x, v in I.branch(st, f)]

    def low_bound(self, z, cands, res):
        """node index just after the last candidate comparing less"""
        lows = [i for (i, n), r in zip(cands, res) if r < 0]
        ups = [i for (i, n), r in zip(cands, res) if r >= 0]
        ks = [k for k, x in enumerate(z) if x[0] in 'ER' and x[1] in ups]
        if ks:
            return min(ks)
        return len(z)


END_ = 'end'


def ok_ix(v):
    return ('adt', 0, (v,))


def vderef1(I, s, v):
    return I.deref(s, v) if isinstance(v, tuple) and v[0] in ('ref', 'snap') else v


def struct_cmp(I, s, a, b):
    """derived lexicographic order on options, tuples, references to byte strings and integers"""
    if isinstance(a, tuple) and a[0] == 'adt' and isinstance(b, tuple) and b[0] == 'adt':
        if a[1] != b[1]:
            return (a[1] > b[1]) - (a[1] < b[1])
        for x, y in zip(a[2], b[2]):
            r = struct_cmp(I, s, x, y)
            if r:
                return r
        return 0
    if isinstance(a, tuple) and a[0] == 'tup':
        for x, y in zip(a[1], b[1]):
            r = struct_cmp(I, s, x, y)
            if r:
                return r
        return 0
    a2, b2 = vderef(I, s, a), vderef(I, s, b)
    if isinstance(a2, tuple) and a2[0] in ('adt', 'tup'):
        return struct_cmp(I, s, a2, b2)
    return gcmp(I, s, a, b)


OPS = {'first': 'move_on_first', 'last': 'move_on_last', 'next': 'move_on_next', 'prev': 'move_on_prev',
       'le': 'move_on_key_lower_than_or_equal_to', 'ge': 'move_on_key_greater_than_or_equal_to', 'current': 'current'}


def describe(z, cur=None):
    out = []
    for x in z:
        if x[0] == 'Q':
            out.append('|%s|' % ','.join(sorted(map(str, x[1]))))
        elif x[0] == 'R':
            out.append('[entries%s]' % (' without index offsets' if x[2] == 'u' else ''))
        else:
            out.append('<%s%s%s>' % (x[1], '*' if x[2] else '', ' =' + ','.join(sorted(map(str, x[3]))) if x[3] else ''))
    return ' '.join(out) or 'empty'


class Explorer:
    """states: (cursor value, nodes, logical position) with position None (fresh), entry id 'cur', or 'lost'"""

    def __init__(self, P, rep, prefix, deadline, gate=None, world='anti', script=None):
        self.gate, self.world, self.script = gate, world, script
        self.P, self.rep, self.prefix, self.deadline = P, rep, prefix, deadline
        self.Z = Zones('z')
        self.entry_at = G.need_fn(P, 'Block::entry_at')['np']
        self.viol = {}

    def outside(self, bodies):
        """the operations the rest of the crate relies on"""
        names = {b['np']: o for o, b in bodies.items()}
        used = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] < len(self.P.T):
                    c = self.P.T[x[1]].get('callee')
                    if c:
                        n = self.P.norm(c.get('rpath') or c['path'])
                        if n in names:
                            used.add(names[n])
                for y in x:
                    walk(y)
        for b in self.P.bodies.values():
            root = b['np']
            if 'BlockCursor::' in root and 'IndexBlockCursor::' not in root or not b.get('local'):
                continue
            for blk in b['blocks']:
                walk(blk['s'])
                walk(blk['t'])
        return used

    def run(self, ops_from_fresh_only=False):
        P = self.P
        new = G.need_fn(P, 'BlockCursor::new')
        bodies = self.bodies = {o: G.need_fn(P, 'BlockCursor::' + m) for o, m in OPS.items()}
        dom = BlockDom(P, self.Z, self.entry_at)
        dom.world = self.world
        self.dom = dom
        I = Interp(P, dom, overflow='report', max_steps=4000000)
        I.deadline = self.deadline
        self.I = I
        st = State()
        st.gset('z', (('R', 1, 'm'),))
        rets, _ = G.oks(I.run_body(st, new, [('obj', 'block')]))
        fresh = rets[0][1]
        todo = [(fresh, (('R', 1, 'm'),), None, ('fresh',)), (fresh, (), None, ('fresh',))]
        seen = set()
        n_states = n_trans = 0
        while todo:
            val, z, pos, hist = todo.pop(0)
            k = (val, z, pos) + ((len(hist),) if self.script else ())
            if k in seen:
                continue
            seen.add(k)
            n_states += 1
            if self.script and len(hist) > len(self.script):
                continue
            if time.time() > self.deadline:
                raise Undecided('time budget')
            if ops_from_fresh_only and pos is not None:
                continue
            for op, body in bodies.items():
                if self.gate is not None and not self.gate(pos, op):
                    continue
                if self.script and op != self.script[len(hist) - 1]:
                    continue
                if pos == 'lost' and op in ('next', 'prev', 'current'):
                    continue
                shapes = self.Z.place_alts(z, 'q') if op in ('le', 'ge') else [z]
                for z0 in shapes:
                    s = State()
                    s.gset('z', z0)
                    if pos == 'cur':
                        s.gset('pos', ('key', 'cur'))
                    c = s.alloc(val)
                    args = [('ref', c, ())]
                    if op in ('le', 'ge'):
                        q = ('probe', 'q')
                        args.append(('snap', ('seq', (('s', q, 0, L.atom(('len', q))),))))
                    und0 = sum(I.undecided.values())
                    try:
                        outs = I.run_body(s, body, args)
                    except Undecided as e:
                        I.und(str(e), body['np'])
                        continue
                    n_trans += 1
                    for s2, kind, v in outs:
                        self.judge(I, s2, kind, v, op, c, pos, hist, todo, body)
        self.rep.absorb(I)
        return n_states, n_trans, sum(I.undecided.values())

    def expected(self, s, op, pos):
        Z = self.Z
        z = Z.get(s)
        if op == 'first':
            return Z.first(s)
        if op == 'last':
            return Z.last(s)
        if op == 'current':
            return 'cur' if pos == 'cur' else None
        if op == 'next':
            return Z.first(s) if pos is None else Z.succ(s, 'cur')
        if op == 'prev':
            return Z.last(s) if pos is None else Z.pred(s, 'cur')
        k = Z.probe_index(z, 'q')
        if z[k][0] == 'E':
            return z[k][1]
        return Z.at_or_before(s, k) if op == 'le' else Z.at_or_after(s, k)

    def judge(self, I, s, kind, v, op, c, pos, hist, todo, body):
        where = 'BlockCursor::' + OPS[op]
        self.dub = I.dom.dubious(s)
        if kind == 'panic':
            self.report(where + ' panics', '%s panics (%s) after %s on block %s' % (where, v, '>'.join(hist), describe(self.Z.get(s))), hist, op)
            return
        for s2, exp in I.branch(s, lambda x: self.expected(x, op, pos)):
            got = self.result(I, s2, v)
            if got == 'bad':
                self.report(where + ' result', '%s returns a mismatched key and value' % where, hist, op)
                continue
            if got is False:
                I.und('result shape', where)
                continue
            if got != exp:
                self.report(where + ' wrong entry',
                            '%s after %s returns %s instead of %s on block %s (| | marks the probe, * an entry listed in the index offsets)' % (
                                where, '>'.join(hist[-4:]), 'None' if got is None else 'entry %s' % got,
                                'None' if exp is None else 'entry %s' % exp, describe(self.Z.get(s2))), hist, op)
                continue
            if op == 'current':
                continue
            npos = 'lost' if exp is None else exp
            self.push(I, s2, c, npos, hist + (op,), todo)

    def result(self, I, s, v):
        if v[0] != 'adt':
            return False
        if v[1] == 0:
            return None
        t = v[2][0]
        try:
            k = norm_segs(I.ptr_seq(s, t[1][0]))
            w = norm_segs(I.ptr_seq(s, t[1][1]))
        except Undecided:
            return False
        if len(k) != 1 or k[0][0] != 's' or not isinstance(k[0][1], tuple) or k[0][1][0] != 'key':
            return False
        i = k[0][1][1]
        if norm_segs(I.ptr_seq(s, ent_val(i))) != w:
            return 'bad'
        return i

    def push(self, I, s, c, npos, hist, todo):
        # drop the probe, tag the logical position, fold
        val = s.mem[c]
        z = self.Z.get(s)
        s2 = State()
        s2.gset('z', z)
        if any('q' in x[1] if x[0] == 'Q' else 'q' in x[3] for x in z if x[0] in 'QE'):
            self.Z.drop_probe(s2, 'q')
        ren = {}
        if npos != 'lost':
            ren = {'cur': 'old', npos: 'cur'} if npos != 'cur' else {}
        else:
            ren = {'cur': 'old'}
        z = tuple((x[0], ren.get(x[1], x[1])) + x[2:] if x[0] in 'ER' else x for x in s2.ghost['z'])
        s2.gset('z', z)
        val = rename_refs(val, TAGS, ren)
        # 'old' must not persist as a fixed name
        if any(x[0] == 'E' and x[1] == 'old' for x in z):
            fresh = self.Z.new_ids(z, 1)[0]
            z = tuple((x[0], fresh if x[1] == 'old' else x[1]) + x[2:] if x[0] in 'ER' else x for x in z)
            s2.gset('z', z)
            val = rename_refs(val, TAGS, {'old': fresh})
        cell = s2.alloc(val)
        keep = ['cur'] if npos != 'lost' else []
        dom = I.dom
        dom.fold_state(I, s2, keep)
        todo.append((s2.mem[cell], s2.ghost['z'], None if npos is None else ('lost' if npos == 'lost' else 'cur'), hist))

    dub = False

    def report(self, key, text, hist, op):
        if self.dub:
            self.I.und('outcome rests on key lengths', key)
            return
        self.viol.setdefault(key, (text, hist, op))
