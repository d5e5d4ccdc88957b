"""Range and prefix iterators over an arbitrary file (ordered-entry domain).

The file is any sorted list of entries; the cursor the iterators drive is replaced by its contract (C02/C03). Bounds are
probes placed anywhere; "starts with P" is the interval [P, P+) where P+ is the next string that does not start with P
(none when P is empty or made of 0xFF bytes only). `next` is applied to every reachable abstract iterator state."""
import time
from . import lin as L, grenad as G
from .core import *
from .models import vderef, inner_ptr
from .zones import Zones, walk_refs, rename_refs
from .blockcur import ZoneDom, ent_key, ent_val, describe

FRESH, LOST = ('fresh',), ('lost',)
CURSOR = {'move_on_first': 'first', 'move_on_last': 'last', 'move_on_next': 'next', 'move_on_prev': 'prev', 'current': 'current',
          'move_on_key_greater_than_or_equal_to': 'ge', 'move_on_key_lower_than_or_equal_to': 'le',
          'move_on_key_equal_to': 'eq', 'reset': 'reset'}


def sym(n):
    return (('s', ('probe', n), 0, L.atom(('len', ('probe', n)))),)


class IterDom(ZoneDom):
    tags = ('key', 'val', 'pos')

    def __init__(self, zones, names=None):
        super().__init__(zones)
        self.names = names or {}       # normalised segments -> probe name
        self.calls = 0

    # bounds
    def name_of(self, g):
        g = norm_segs(g)
        if g in self.names:
            return ('probe', self.names[g])
        r = super().name_of(g)
        if r is None and self.names and all(x[0] in ('s', 'e', 'rep') for x in g):
            return ('probe', ('D', g))
        return r

    def cmp_segments(self, I, s, a, b):
        """order of two structured byte strings"""
        a, b = list(expand(a)), list(expand(b))
        while a and b and a[0] == b[0]:
            a.pop(0)
            b.pop(0)
        if not a or not b:
            return (len(a) > 0) - (len(b) > 0)
        if a[0][0] == 'e' and b[0][0] == 'e':
            x, y = I.as_num(a[0][1]), I.as_num(b[0][1])
            if x is None or y is None:
                raise Undecided('byte comparison')
            if s.ask(L.lt(x, y)):
                return -1
            if s.ask(L.lt(y, x)):
                return 1
            raise Undecided('byte comparison')
        raise Undecided('order of derived byte strings')

    def placed(self, I, s, q):
        """place a derived probe where its bytes allow"""
        z = self.Z.get(s)
        if any(q in (x[1] if x[0] == 'Q' else x[3]) for x in z if x[0] in 'QE'):
            return
        known = [(n, g) for g, n in self.names.items()]
        if not known:
            raise Undecided('unknown byte string')
        rel = [(n, self.cmp_segments(I, s, q[1], g), g) for n, g in known]
        alts = []
        for a in self.Z.place_alts(z, q):
            i = self.Z.probe_index(a, q)
            good = True
            for n, c, g in rel:
                j = self.Z.probe_index(a, n)
                if ((i > j) - (i < j)) != c:
                    good = False
                # nothing lies between a string and the string with a zero byte appended
                if c > 0 and tuple(expand(q[1])) == tuple(expand(g)) + (('e', 0),) and any(x[0] in 'ER' for x in a[j + 1:i]):
                    good = False
            if good:
                alts.append(a)
        if not alts:
            raise Infeasible()
        self.Z.fork(alts)

    def cmp_bytes(self, I, s, a, b):
        x, y = self.name_of(a), self.name_of(b)
        if x is None or y is None:
            return None
        for n in (x, y):
            if n[0] == 'probe' and isinstance(n[1], tuple):
                self.placed(I, s, n[1])
        return super().cmp_bytes(I, s, a, b)

    def eq_bytes(self, I, s, a, b):
        r = self.cut_key(I, s, a, b)
        if r is None:
            r = self.cut_key(I, s, b, a)
        return super().eq_bytes(I, s, a, b) if r is None else r

    def cut_key(self, I, s, a, b):
        """is a the beginning of a key, as long as the prefix b? then: does the key start with it"""
        a, b = norm_segs(a), norm_segs(b)
        if len(a) == 1 and a[0][0] == 's' and a[0][2] == 0 and isinstance(a[0][1], tuple) and a[0][1][0] == 'key' \
                and self.names.get(b) == 'P' and a[0][3] == seq_len(b):
            return in_prefix(self.Z, s, a[0][1][1], 'P+' in self.names.values())
        return None

    def prefix_bytes(self, I, s, a, b):
        """a starts with b"""
        x, y = self.name_of(a), self.name_of(b)
        if x is None or y is None or 'P' not in self.names.values():
            return super().prefix_bytes(I, s, a, b)
        if y == ('probe', 'P') and x[0] == 'key':
            return in_prefix(self.Z, s, x[1], 'P+' in self.names.values())
        if y[0] == 'probe' and isinstance(y[1], tuple) or x[0] == 'probe':
            raise Undecided('prefix test with a derived string')
        return super().prefix_bytes(I, s, a, b)

    def dubious(self, s):
        if 'P' not in self.names.values():
            return super().dubious(s)
        ids = set()
        for q in list(s.facts.ineq) + list(s.facts.ne):
            for a, _ in q[2]:
                if isinstance(a, tuple) and a[0] == 'len' and a[1][0] == 'key':
                    ids.add(a[1][1])
        for a in s.facts.rng:
            if isinstance(a, tuple) and a[0] == 'len' and a[1][0] == 'key' and s.facts.rng[a] != (0, 1 << 62):
                ids.add(a[1][1])
        if not ids:
            return False
        z = self.Z.get(s)
        plen = seq_len([g for g, n in self.names.items() if n == 'P'][0])
        for e in ids:
            if e not in [x[1] for x in z if x[0] == 'E']:
                return True
            c = self.Z.cmp_probe(s, e, 'P')
            n = L.atom(('len', ('key', e)))
            if c < 0 or not in_prefix(self.Z, s, e, 'P+' in self.names.values()):
                # any such key can be replaced by a long one in its place
                try:
                    s.assume(L.le(1 << 40, n))
                except Infeasible:
                    return True
                continue
            f = L.eq(n, plen) if c == 0 else L.lt(plen, n)
            try:
                s.assume(f)
            except Infeasible:
                return 'drop'
        return False

    # the cursor
    def call(self, I, s, c, name, args):
        m = name.rsplit('::', 1)
        if len(m) == 2 and m[1] in CURSOR and m[0].endswith('reader_cursor::ReaderCursor'):
            return [(x, 'ret', v) for x, v in I.branch(s, lambda x: self.cop(I, x, CURSOR[m[1]], args))]
        if name.endswith(('reader::Reader::into_cursor', 'Reader::into_cursor')):
            return [(s, 'ret', ok(('obj', 'rc', FRESH)))]
        if name.endswith('ReaderCursor::new'):
            return [(s, 'ret', ok(('obj', 'rc', FRESH)))]
        if m[-1] in ('start_bound', 'end_bound') and ('RangeBounds' in name or c.get('trait') == 'std::ops::RangeBounds'):
            v = vderef(I, s, args[0])
            if isinstance(v, tuple) and v[:2] == ('obj', 'range'):
                return [(s, 'ret', v[2][m[1] == 'end_bound'])]
            if isinstance(v, tuple) and v[0] == 'tup':
                return [(s, 'ret', self.as_bound(I, s, args[0], 0 if m[1] == 'start_bound' else 1))]
        tr = c.get('trait')
        if tr == 'std::convert::AsRef' or name == 'std::convert::AsRef::as_ref':
            v = args[0]
            for _ in range(4):
                x = I.deref(s, v)
                if isinstance(x, tuple) and x[0] in ('ref', 'snap'):
                    v = x
                    continue
                break
            if isinstance(x, tuple) and x[0] == 'seq':
                return [(s, 'ret', v)]
        if tr == 'std::clone::Clone' and args:
            x = vderef(I, s, args[0])
            if isinstance(x, tuple) and x[:2] == ('obj', 'rc'):
                return [(s, 'ret', x)]
        return None

    def as_bound(self, I, s, p, i):
        p = inner_ptr(I, s, p)
        q = I.proj(p, ('f', i)) if hasattr(I, 'proj') else None
        v = I.deref(s, p)[1][i]
        if v[1] == 2:
            return v
        return ('adt', v[1], (('ref', p[1], p[2] + (('f', i), ('f', 0))) if p[0] == 'ref' else ('snap', v[2][0]),))

    def entry(self, e):
        return NONE if e is None else some(('tup', (ent_key(e), ent_val(e))))

    def any_entry(self, I, s):
        """an unknown entry or none; what follows is no proof of a violation"""
        s.gset('loose', True)
        z = self.Z.get(s)
        if s.g('pick') is None:
            alts = [('gset', 'pick', 'none')]
            for k, x in enumerate(z):
                if x[0] == 'E':
                    alts.append(('gset', 'pick', x[1]))
                elif x[0] == 'R':
                    a, b, c = self.Z.new_ids(z, 3)
                    e, l, r = ('E', a, False, frozenset()), ('R', b, 'u'), ('R', c, 'u')
                    for y in ((e,), (l, e), (e, r), (l, e, r)):
                        alts.append(('gsets', (('pick', a), (self.Z.key, z[:k] + y + z[k + 1:]))))
            raise Fork(alts)
        return None if s.g('pick') == 'none' else s.g('pick')

    def cop(self, I, s, op, args):
        p = inner_ptr(I, s, args[0])
        while True:
            o = I.deref(s, p)
            if isinstance(o, tuple) and o[0] in ('ref', 'snap'):
                p = o
                continue
            break
        if not (isinstance(o, tuple) and o[:2] == ('obj', 'rc')):
            raise Undecided('cursor')
        pos, Z = o[2], self.Z
        if op == 'reset':
            I.write_ptr(s, p, ('obj', 'rc', FRESH))
            return UNIT
        if op == 'current':
            if pos == FRESH:
                return NONE
            if pos == LOST:
                e = self.any_entry(I, s)
                s.gset('pick', None)
                return self.entry(e)
            return self.entry(pos[1])
        if op == 'first':
            e = Z.first(s)
        elif op == 'last':
            e = Z.last(s)
        elif op in ('next', 'prev'):
            if pos == LOST:
                e = self.any_entry(I, s)
                s.gset('pick', None)
            elif pos == FRESH:
                e = Z.first(s) if op == 'next' else Z.last(s)
            else:
                e = Z.succ(s, pos[1]) if op == 'next' else Z.pred(s, pos[1])
        else:
            n = self.name_of(I.ptr_seq(s, args[1]))
            if n is None:
                raise Undecided('seek with an unknown key')
            if n[0] == 'key':
                e = n[1]
            else:
                if isinstance(n[1], tuple):
                    self.placed(I, s, n[1])
                z = Z.get(s)
                k = Z.probe_index(z, n[1])
                if z[k][0] == 'E':
                    e = z[k][1]
                else:
                    e = None if op == 'eq' else Z.at_or_after(s, k) if op == 'ge' else Z.at_or_before(s, k)
        I.write_ptr(s, p, ('obj', 'rc', LOST if e is None else ('pos', e)))
        return ok(self.entry(e))


def expand(g):
    for x in norm_segs(g):
        if x[0] == 'rep' and isinstance(x[2], int):
            for _ in range(x[2]):
                yield ('e', x[1])
        else:
            yield x


def in_prefix(Z, s, e, plus):
    return Z.cmp_probe(s, e, 'P') >= 0 and not (plus and Z.cmp_probe(s, e, 'P+') >= 0)


class Explorer:
    def __init__(self, P, deadline, fn, names, probes, args, start, inside, rev, what):
        """fn: constructor body; start(Z, s): first candidate; inside(Z, s, e): does e belong; rev: direction"""
        self.P, self.deadline, self.fn, self.names, self.probes = P, deadline, fn, names, probes
        self.args, self.start, self.inside, self.rev, self.what = args, start, inside, rev, what
        self.Z = Zones('z', marks=False)
        self.viol = {}
        self.und = []
        self.states = 0
        self.dub = False
        self.hits = set()

    def shapes(self):
        base = [(), (('R', 1, 'u'),)]
        for n, good in self.probes:
            out = []
            for z in base:
                out += [a for a in self.Z.place_alts(z, n) if good(self.Z, a)]
            base = out
        return sorted(set(canon(self.Z, z) for z in base), key=repr)

    def expected(self, s, pos):
        Z = self.Z
        if pos is None:
            e = self.start(Z, s)
        else:
            e = Z.pred(s, 'cur') if self.rev else Z.succ(s, 'cur')
        if e is not None and not self.inside(Z, s, e):
            e = None
        return e

    def run(self, nxt):
        self.explore(nxt, 'anti')
        if self.dom.asked:
            self.what += ', every key and bound a prefix of all greater ones'
            self.explore(nxt, 'chain')

    def explore(self, nxt, world):
        P = self.P
        dom = IterDom(self.Z, self.names)
        dom.world = world
        I = self.I = Interp(P, dom, overflow='report', max_steps=6000000)
        I.deadline = self.deadline
        self.dom = dom
        todo = []
        for z in self.shapes():
            s = State()
            s.gset('z', z)
            a = self.args(I, s)
            try:
                outs = I.run_body(s, self.fn, a)
            except Undecided as e:
                self.und.append(str(e))
                return
            for s2, kind, v in outs:
                if kind == 'panic':
                    self.report('construction panics', 'creating the iterator panics: %s' % v, z)
                elif v[0] != 'adt' or v[1] != 0:
                    self.report('construction fails', 'creating the iterator fails although nothing failed', z)
                else:
                    self.push(I, s2, v[2][0], None, todo)
        seen = set()
        while todo:
            val, z, pos, fc = todo.pop(0)
            if (val, z, pos, fc) in seen:
                continue
            seen.add((val, z, pos, fc))
            self.states += 1
            if time.time() > self.deadline:
                self.und.append('time budget')
                break
            s = State()
            s.facts = fc
            s.gset('z', z)
            if pos == 'cur':
                s.gset('pos', ('key', 'cur'))
            c = s.alloc(val)
            try:
                outs = I.run_body(s, nxt, [('ref', c, ())])
            except Undecided as e:
                self.und.append(str(e))
                continue
            for s2, kind, v in outs:
                self.judge(I, s2, kind, v, c, pos, todo)
        self.und += ['%s' % (k,) for k in I.undecided]

    def judge(self, I, s, kind, v, c, pos, todo):
        d = I.dom.dubious(s)
        if d == 'drop':
            return
        self.dub = d
        if kind == 'panic':
            return self.report('next panics', 'next() panics: %s' % v, self.Z.get(s), s)
        if not (isinstance(v, tuple) and v[0] == 'adt'):
            self.und.append('result shape')
            return
        if v[1] != 0:
            return self.report('next fails', 'next() returns an error although no component failed', self.Z.get(s), s)
        for s2, exp in I.branch(s, lambda x: self.expected(x, pos)):
            got = self.result(I, s2, v[2][0])
            if got is False:
                self.und.append('result shape')
                continue
            if got != exp:
                self.report('wrong entry', 'next() yields %s where %s is due%s' % (
                    name(got), name(exp), '' if pos is None else ' after entry cur'), self.Z.get(s2), s2)
                continue
            self.hits.add('none' if exp is None else 'entry')
            if exp is not None:
                self.push(I, s2, s2.mem[c], exp, todo)

    def result(self, I, s, v):
        if not (isinstance(v, tuple) and v[0] == 'adt'):
            return False
        if v[1] == 0:
            return None
        try:
            t = vderef(I, s, v[2][0])
            k = I.dom.name_of(I.ptr_seq(s, t[1][0]))
            w = norm_segs(I.ptr_seq(s, t[1][1]))
        except (Undecided, IndexError, TypeError):
            return False
        if k is None or k[0] != 'key':
            return False
        return k[1] if norm_segs(I.ptr_seq(s, ent_val(k[1]))) == w else 'bad'

    def push(self, I, s, val, npos, todo):
        val = close(I, s, val)
        z = self.Z.get(s)
        ren = {'cur': 'old'} if npos != 'cur' else {}
        if npos is not None and npos != 'cur':
            ren[npos] = 'cur'
        z = tuple((x[0], ren.get(x[1], x[1])) + x[2:] if x[0] in 'ER' else x for x in z)
        val = rename_refs(val, self.dom.tags, ren)
        if any(x[0] == 'E' and x[1] == 'old' for x in z):
            n = self.Z.new_ids(z, 1)[0]
            z = tuple((x[0], n if x[1] == 'old' else x[1]) + x[2:] if x[0] in 'ER' else x for x in z)
            val = rename_refs(val, self.dom.tags, {'old': n})
        s2 = State()
        rng = {a: r for a, r in s.facts.rng.items() if isinstance(a, str)}
        s2.facts = L.Facts(rng, frozenset(), frozenset(), {})
        # derived probes are placed afresh when they are used again
        for x in z:
            for q in (x[1] if x[0] == 'Q' else x[3] if x[0] == 'E' else ()):
                if isinstance(q, tuple):
                    s2.gset('z', z)
                    self.Z.drop_probe(s2, q)
                    z = s2.ghost['z']
        s2.gset('z', z)
        if s.g('loose'):
            s2.gset('loose', True)
        cell = s2.alloc(val)
        self.dom.fold_state(I, s2, ['cur'] if npos is not None else [])
        fc = L.Facts(rng, frozenset(), frozenset(), {})
        todo.append((s2.mem[cell], s2.ghost['z'], None if npos is None else 'cur', HFacts(fc)))

    def report(self, key, text, z, s=None):
        if s is not None and self.dub:
            self.und.append('outcome rests on key lengths')
            return
        if s is not None and s.g('loose'):
            self.und.append('cursor used after a None result')
            return
        self.viol.setdefault(key, '%s, file %s (%s)' % (text, describe(z), self.what))


class HFacts(L.Facts):
    """facts with value equality, as part of a state key"""

    def __init__(self, f):
        super().__init__(f.rng, f.ineq, f.ne, f.b)
        self.k = tuple(sorted((repr(a), r) for a, r in f.rng.items()))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, HFacts) and self.k == o.k


def close(I, s, v):
    """the value with owned contents inlined"""
    return v


def name(e):
    return 'None' if e is None else 'mismatched key and value' if e == 'bad' else 'entry %s' % e


def canon(Z, z):
    s = State()
    s.gset('z', z)
    Z.fold(s, set())
    return s.ghost['z']


# ------------------------------------------------------------------ range queries
KINDS = ('Included', 'Excluded', 'Unbounded')


def range_spec(lo, hi, rev):
    def inside(Z, s, e):
        if lo != 'Unbounded':
            c = Z.cmp_probe(s, e, 'lo')
            if c < 0 or c == 0 and lo == 'Excluded':
                return False
        if hi != 'Unbounded':
            c = Z.cmp_probe(s, e, 'hi')
            if c > 0 or c == 0 and hi == 'Excluded':
                return False
        return True

    def start(Z, s):
        b, q = (hi, 'hi') if rev else (lo, 'lo')
        if b == 'Unbounded':
            return Z.last(s) if rev else Z.first(s)
        z = Z.get(s)
        k = Z.probe_index(z, q)
        if z[k][0] == 'E' and b == 'Included':
            return z[k][1]
        return Z.at_or_before(s, k - 1) if rev else Z.at_or_after(s, k + 1)
    return start, inside


def range_job(P, lo, hi, rev, deadline):
    fn = G.fn(P, 'Reader::into_rev_range_iter' if rev else 'Reader::into_range_iter', True)
    nxt = G.fn(P, 'RevRangeIter::next' if rev else 'RangeIter::next', True)
    start, inside = range_spec(lo, hi, rev)
    probes = []
    if lo != 'Unbounded':
        probes.append(('lo', lambda Z, z: True))
    if hi != 'Unbounded':
        probes.append(('hi', lambda Z, z: True))

    def bound(k, n):
        i = KINDS.index(k)
        return ('adt', i, () if k == 'Unbounded' else (('snap', ('seq', sym(n))),))

    def args(I, s):
        return [('obj', 'reader'), ('obj', 'range', (bound(lo, 'lo'), bound(hi, 'hi')))]
    what = '%s bounds: %s lo, %s hi' % ('reverse' if rev else 'forward', lo.lower(), hi.lower())
    return Explorer(P, deadline, fn, None, probes, args, start, inside, rev, what), nxt


# ------------------------------------------------------------------ prefix queries
def prefix_job(P, shape, rev, deadline):
    """shape: ('ff', n): n bytes 0xFF (n may be 0); ('mid', lead, n): [lead..] c 0xFF*n with c below 0xFF"""
    fn = G.fn(P, 'Reader::into_rev_prefix_iter' if rev else 'Reader::into_prefix_iter', True)
    nxt = G.fn(P, 'RevPrefixIter::next' if rev else 'PrefixIter::next', True)
    if shape[0] == 'ff':
        p = tuple(('e', 255) for _ in range(shape[1]))
        names = {norm_segs(p): 'P'}
        what = 'empty prefix' if not shape[1] else 'prefix of %d bytes 0xFF' % shape[1]
        if shape[1]:
            probes = [('P', lambda Z, z: True)]
        else:
            def lowest(Z, z):
                return Z.probe_index(z, 'P') == 0
            probes = [('P', lowest)]
    else:
        a = (('s', ('lead', 'a'), 0, L.atom(('len', ('lead', 'a')))),) if shape[1] else ()
        c = L.atom('c')
        p = a + (('e', c),) + tuple(('e', 255) for _ in range(shape[2]))
        pp = a + (('e', L.add(c, 1)),)
        names = {norm_segs(p): 'P', norm_segs(pp): 'P+'}
        what = 'prefix %s[c]%s, c < 0xFF' % ('[..]' if shape[1] else '', ' 0xFF' * shape[2])

        def above(Z, z):
            return Z.probe_index(z, 'P+') > Z.probe_index(z, 'P')
        probes = [('P', lambda Z, z: True), ('P+', above)]
    plus = 'P+' in names.values()

    def inside(Z, s, e):
        return in_prefix(Z, s, e, plus)

    def start(Z, s):
        z = Z.get(s)
        if rev:
            return Z.at_or_before(s, Z.probe_index(z, 'P+') - 1) if plus else Z.last(s)
        return Z.at_or_after(s, Z.probe_index(z, 'P'))

    def args(I, s):
        if shape[0] == 'mid':
            s.range('c', 0, 254)
            if shape[1]:
                s.range(('len', ('lead', 'a')), 1, 1 << 32)
        return [('obj', 'reader'), ('seq', norm_segs(p))]
    return Explorer(P, deadline, fn, names, probes, args, start, inside, rev, what), nxt
