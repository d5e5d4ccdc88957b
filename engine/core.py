"""Abstract interpreter over the extracted MIR.

Disjunctive (trace-partitioned) abstract states; calls are evaluated big-step: a call on an abstract
state yields the finite set of abstract outcomes. Loops close when the abstract state at the loop head
has been seen before in the same activation. Nothing here guesses: an operation outside the domain
raises Undecided, the path is recorded as not analysed and never produces a report."""
import sys
from . import lin as L

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, info):
        self.info = info


UNIT = ('tup', ())
TOP = ('top', '')
NONE = ('adt', 0, ())


def some(v):
    return ('adt', 1, (v,))


def ok(v):
    return ('adt', 0, (v,))


def err(v):
    return ('adt', 1, (v,))


def atomv(a):
    return L.atom(a)


class State:
    __slots__ = ('mem', 'log', 'facts', 'ghost', 'depth', 'nf', 'trace')

    def __init__(self):
        self.mem = {}
        self.log = []
        self.facts = L.Facts()
        self.ghost = {}
        self.depth = 0
        self.nf = 0
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.log = []
        s.facts = self.facts
        s.ghost = self.ghost
        s.depth = self.depth
        s.nf = self.nf
        s.trace = self.trace
        return s

    def mark(self):
        return (len(self.log), self.facts, self.ghost, self.depth, self.nf, self.trace)

    def rollback(self, m):
        n, self.facts, self.ghost, self.depth, self.nf, self.trace = m
        log = self.log
        mem = self.mem
        while len(log) > n:
            k, o = log.pop()
            if o is None:
                mem.pop(k, None)
            else:
                mem[k] = o

    def set(self, k, v):
        self.log.append((k, self.mem.get(k)))
        self.mem[k] = v

    def kill(self, k):
        if k in self.mem:
            self.log.append((k, self.mem[k]))
            del self.mem[k]

    def alloc(self, v):
        """fresh heap/ghost cell"""
        self.nf += 1
        k = ('g', self.nf)
        self.set(k, v)
        return k

    def fresh(self, tag):
        self.nf += 1
        return ('~', tag, self.nf)

    def gset(self, k, v):
        g = dict(self.ghost)
        g[k] = v
        self.ghost = g

    def g(self, k, d=None):
        return self.ghost.get(k, d)

    def note(self, s):
        self.trace = self.trace + (s,)

    def key(self):
        return (frozenset(self.mem.items()), self.facts.key(), frozenset(self.ghost.items()))

    # ---- facts
    def assume(self, f):
        x = self.facts.assume(f)
        if x is None:
            raise Infeasible()
        self.facts = x

    def bind(self, k, v):
        x = self.facts.bind(k, v)
        if x is None:
            raise Infeasible()
        self.facts = x

    def ask(self, f):
        r = self.facts.prove(f)
        if r is not None:
            return r
        if f[0] == 'or' or f[0] == 'and':
            a = self.ask(f[1])
            if f[0] == 'or':
                return True if a else self.ask(f[2])
            return self.ask(f[2]) if a else False
        raise Fork([('f', f), ('f', L.neg(f))])

    def choose(self, key, options):
        """value bound to key, forking over options when unbound"""
        v = self.facts.b.get(key)
        if v is not None:
            return v
        raise Fork([('bind', key, o) for o in options])

    def apply(self, alt):
        if alt[0] == 'f':
            x = self.facts.assume(alt[1])
        elif alt[0] == 'bind':
            x = self.facts.bind(alt[1], alt[2])
        elif alt[0] == 'gset':
            self.gset(alt[1], alt[2])
            return True
        elif alt[0] == 'gsets':
            g = dict(self.ghost)
            g.update(alt[1])
            self.ghost = g
            return True
        else:
            raise ValueError(alt)
        if x is None:
            return False
        self.facts = x
        return True

    def range(self, a, lo=None, hi=None):
        x = self.facts.with_range(a, lo, hi)
        if x is None:
            raise Infeasible()
        self.facts = x


MAXB = {}


def imax(ty):
    return (1 << (ty['w'] - 1)) - 1 if ty['signed'] else (1 << ty['w']) - 1


def imin(ty):
    return -(1 << (ty['w'] - 1)) if ty['signed'] else 0


def wrap(ty, n):
    w = ty['w']
    n &= (1 << w) - 1
    if ty['signed'] and n >> (w - 1):
        n -= 1 << w
    return n


def container(I, s, p):
    """the byte container a pointer points into"""
    if p[0] == 'snap':
        return p[2] if len(p) > 2 else None
    ps = p[2]
    for i, x in enumerate(ps):
        if x[0] in ('ss', 'e'):
            v = I.load(s, p[1], ps[:i])
            if isinstance(v, tuple) and v[0] == 'seq' and not any(isinstance(y[1], tuple) and y[1] and y[1][0] in ('seq', 'adt') for y in v[1] if y[0] == 'e'):
                return v
    v = I.deref(s, p)
    return v if isinstance(v, tuple) and v[0] == 'seq' else None


# ------------------------------------------------------------------ segments
def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == 's':
            if s[2] == s[3]:
                continue
            if out and out[-1][0] == 's' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                out[-1] = ('s', s[1], out[-1][2], s[3])
                continue
        elif s[0] == 'rep':
            if s[2] == 0:
                continue
            if out and out[-1][0] == 'rep' and out[-1][1] == s[1]:
                out[-1] = ('rep', s[1], L.add(out[-1][2], s[2]))
                continue
        elif s[0] == 'ns':
            if s[4] == s[5]:
                continue
            if out and out[-1][0] == 'ns' and out[-1][1:4] == s[1:4] and out[-1][5] == s[4]:
                s = ('ns', s[1], s[2], s[3], out[-1][4], s[5])
                out.pop()
            if s[4] == 0 and s[5] == s[2]:
                s = ('n', s[1], s[2], s[3])
        elif s[0] == 'n' and s[2] == 0:
            continue
        out.append(s)
    return tuple(out)


def seq(*segs):
    return ('seq', norm_segs(segs))


def bytes_seq(b):
    return ('seq', tuple(('e', x) for x in b))


def sym_bytes(sym):
    """an opaque byte string named sym, of length atom ('len', sym)"""
    return ('seq', (('s', sym, 0, L.atom(('len', sym))),))


def seg_len(s):
    t = s[0]
    if t == 'e':
        return 1
    if t == 's':
        return L.sub(s[3], s[2])
    if t == 'n':
        return s[2]
    if t == 'ns':
        return s[5] - s[4]
    if t in ('rep', 'run'):
        return s[2]
    if t == 'frun':
        return L.scale(s[2], s[3]) if isinstance(s[3], int) else s[2]
    raise Undecided('seg ' + str(t))


def seq_len(segs):
    n = 0
    for s in segs:
        n = L.add(n, seg_len(s))
    return n


def explode(s):
    """concrete bytes of an encoded known integer"""
    if s[0] == 'n' and isinstance(s[3], int):
        bs = s[3].to_bytes(s[2], 'big' if s[1] == 'be' else 'little')
        return [('e', x) for x in bs]
    if s[0] == 'ns' and isinstance(s[3], int):
        bs = s[3].to_bytes(s[2], 'big' if s[1] == 'be' else 'little')[s[4]:s[5]]
        return [('e', x) for x in bs]
    return [s]


class Interp:
    """One analysis run. `dom` supplies the component models and hooks."""
    max_rec = 12

    def __init__(self, prog, dom=None, models=None, bounds='assume', overflow='assume', max_steps=400000, max_out=3000,
                 max_visits=3000):
        from . import models as M
        self.P = prog
        self.T = prog.T
        self.dom = dom
        self.models = models or M.MODELS
        self.bounds = bounds
        self.overflow = overflow
        self.undecided = {}
        self.steps = 0
        self.max_steps = max_steps
        self.max_out = max_out
        self.max_visits = max_visits
        self.called = set()
        self.modelled = {}
        self.arith = {}
        self._loops = {}
        self._nd = {}
        self._live = {}
        self.callstack = []
        self.cs = State()
        self.deadline = None

    # ---------------------------------------------------------- bodies
    def loop_heads(self, body):
        k = body['key']
        r = self._loops.get(k)
        if r is not None:
            return r
        succ = {}
        for i, b in enumerate(body['blocks']):
            succ[i] = succs(b['t'])
        heads = set()
        color = {}
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m is None:
                    continue
                if color.get(m) == 1:
                    heads.add(m)
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._loops[k] = heads
        return heads

    def live_in(self, body, heads):
        """for each loop head the locals whose value may still be read (address-taken locals always count)"""
        k = body['key']
        r = self._live.get(k)
        if r is not None:
            return r
        n = len(body['blocks'])
        use, dfn = [], []
        addr = set()

        def pl(x, u, d):
            if x[0] not in d:
                u.add(x[0])
            for e in x[1:]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o[0] in ('c', 'm'):
                pl(o[1], u, d)

        def rv(r, u, d):
            if r[0] in ('ref', 'rawptr'):
                pl(r[2], u, d)
                if '*' not in r[2][1:]:
                    addr.add(r[2][0])
            elif r[0] == 'discr':
                pl(r[1], u, d)
            elif r[0] == 'agg':
                for o in r[2]:
                    op(o, u, d)
            else:
                for o in r[1:]:
                    if isinstance(o, list) and o and o[0] in ('c', 'm'):
                        op(o, u, d)

        def wr(p, u, d):
            if len(p) == 1:
                d.add(p[0])
            else:
                pl(p, u, d)
        for b in body['blocks']:
            u, d = set(), set()
            for st in b['s']:
                if st[0] == '=':
                    rv(st[2], u, d)
                    wr(st[1], u, d)
                elif st[0] == 'sd':
                    pl(st[1], u, d)
                elif st[0] == 'dead':
                    d.add(st[1])
                else:
                    for o in st[1:]:
                        if isinstance(o, list) and o and o[0] in ('c', 'm'):
                            op(o, u, d)
            t = b['t']
            if t[0] in ('switch', 'assert'):
                op(t[1], u, d)
            elif t[0] == 'drop':
                pl(t[1], u, d)
            elif t[0] == 'call':
                if t[1][0] in ('c', 'm'):
                    op(t[1], u, d)
                for o in t[2]:
                    op(o, u, d)
                wr(t[3], u, d)
            elif t[0] == 'return':
                u.add(0)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for m in succs(body['blocks'][i]['t']):
                    if m is not None:
                        o |= live[m]
                x = use[i] | (o - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        r = self._live[k] = {h: live[h] | addr for h in heads}
        return r

    def und(self, why, where=''):
        k = (why, where)
        self.undecided[k] = self.undecided.get(k, 0) + 1

    def run_body(self, st, body, args):
        """outcomes of interpreting body: list of (state, 'ret'|'panic', value)"""
        if len(self.callstack) > 60:
            raise Undecided('recursion depth')
        if self.callstack.count(body['key']) > self.max_rec:
            raise Undecided('recursion ' + body['np'])
        self.called.add(body['np'])
        self.callstack.append(body['key'])
        try:
            return self._run_body(st, body, args)
        finally:
            self.callstack.pop()

    def _run_body(self, st, body, args):
        d0 = st.depth
        d = st.depth = d0 + 1
        if body['argc'] != len(args):
            raise Undecided('arity %s %d != %d' % (body['np'], body['argc'], len(args)))
        for i, a in enumerate(args):
            st.set((d, i + 1), a)
        heads = self.loop_heads(body)
        work = [(st, 0, 0, False)]
        outs = []
        okeys = set()
        visits = {}
        seen = set()
        while work:
            s, bb, si, resumed = work.pop()
            r = None
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Undecided('step budget')
                    blk = body['blocks'][bb]
                    if si == 0 and bb in heads and not resumed:
                        lv = self.live_in(body, heads)[bb]
                        for c in [c for c in s.mem if c[0] == d and c[1] not in lv]:
                            s.kill(c)
                        if self.dom is not None:
                            self.dom.at_loop(self, s, body, bb)
                        k = (bb, s.key())
                        if k in seen:
                            r = 'dup'
                            break
                        seen.add(k)
                        n = visits[bb] = visits.get(bb, 0) + 1
                        if n > self.max_visits:
                            raise Undecided('loop bound in ' + body['np'])
                    resumed = False
                    stmts = blk['s']
                    while si < len(stmts):
                        m = s.mark()
                        try:
                            self.stmt(s, d, body, stmts[si])
                        except Fork as f:
                            s.rollback(m)
                            self.fork(s, f, work, bb, si)
                            r = 'dup'
                            break
                        si += 1
                    if r:
                        break
                    m = s.mark()
                    try:
                        nx = self.term(s, d, body, blk)
                    except Fork as f:
                        s.rollback(m)
                        self.fork(s, f, work, bb, si)
                        r = 'dup'
                        break
                    if isinstance(nx, int):
                        bb, si = nx, 0
                        continue
                    if nx[0] == 'ret':
                        v = s.mem.get((d, 0), UNIT)
                        r = ('ret', v)
                        break
                    if nx[0] == 'panic':
                        r = nx
                        break
                    if nx[0] == 'outs':
                        for s2, kind, v, tgt in nx[1]:
                            if kind == 'ret':
                                work.append((s2, tgt, 0, False))
                            else:
                                self.finish(s2, d, d0, ('panic', v), outs, okeys)
                        r = 'dup'
                        break
                    raise AssertionError(nx)
            except Undecided as e:
                self.und(str(e), body['np'])
                if self.dom is not None:
                    self.dom.on_undecided(self, s, str(e))
                continue
            except Infeasible:
                continue
            except Panic as e:
                r = ('panic', e.info)
            if r == 'dup':
                continue
            self.finish(s, d, d0, r, outs, okeys)
            if len(outs) > self.max_out:
                raise Undecided('too many outcomes in ' + body['np'])
        return outs

    def finish(self, s, d, d0, r, outs, okeys):
        for k in [k for k in s.mem if k[0] == d]:
            s.kill(k)
        s.depth = d0
        k = (r[0], r[1], s.key())
        if k in okeys:
            return
        okeys.add(k)
        outs.append((s, r[0], r[1]))

    def fork(self, s, f, work, bb, si):
        for alt in f.alts:
            s2 = s.copy()
            if s2.apply(alt):
                work.append((s2, bb, si, True))

    # ---------------------------------------------------------- places
    def resolve(self, s, d, place):
        cell = (d, place[0])
        projs = ()
        for e in place[1:]:
            if e == '*':
                v = self.load(s, cell, projs)
                if v[0] == 'ref':
                    cell, projs = v[1], v[2]
                elif v[0] == 'snap':
                    cell, projs = v, ()
                elif self.dom is not None:
                    r = self.dom.deref(self, s, v)
                    if r is None:
                        raise Undecided('deref of %s' % (v[0],))
                    cell, projs = r
                else:
                    raise Undecided('deref of %s' % (v[0],))
            elif e[0] == 'f':
                projs = projs + (('f', e[1]),)
            elif e[0] == 'd':
                projs = projs + (('d', e[1]),)
            elif e[0] == 'i':
                idx = s.mem.get((d, e[1]))
                projs = projs + (('e', idx),)
            elif e[0] == 'ci':
                off = e[1]
                if e[3]:
                    v = self.load(s, cell, projs)
                    n = self.len_of(s, v)
                    projs = projs + (('e', L.sub(n, off)),)
                else:
                    projs = projs + (('e', off),)
            elif e[0] == 'ss':
                v = self.load(s, cell, projs)
                n = self.len_of(s, v)
                hi = L.sub(n, e[2]) if e[3] else e[2]
                projs = projs + (('ss', e[1], hi),)
            else:
                raise Undecided('projection %s' % (e,))
        return cell, projs

    def load(self, s, cell, projs):
        if cell[0] == 'snap':
            v = cell[1]
        else:
            v = s.mem.get(cell)
            if v is None:
                raise Undecided('read of unset cell %s' % (cell,))
        for p in projs:
            v = self.project(s, v, p)
        return v

    def project(self, s, v, p):
        t = v[0] if isinstance(v, tuple) else 'int'
        if p[0] == 'd':
            if t == 'symenum':
                return self.sym_variant(s, v, p[1])
            return v
        if p[0] == 'f':
            if t == 'adt':
                if p[1] < len(v[2]):
                    return v[2][p[1]]
                raise Undecided('field of wrong variant')
            if t == 'tup':
                return v[1][p[1]]
            if t == 'clo':
                return v[2][p[1]]
            if t in ('ref', 'snap') and p[1] == 0:
                return v  # Box / Unique / NonNull wrap one pointer
            if self.dom is not None:
                r = self.dom.field(self, s, v, p[1])
                if r is not None:
                    return r
            raise Undecided('field of %s' % (t if t != 'obj' else v[:2],))
        if p[0] == 'e':
            if t == 'seq':
                return self.seq_get(s, v[1], p[1])
            if self.dom is not None:
                r = self.dom.element(self, s, v, p[1])
                if r is not None:
                    return r
            raise Undecided('index of %s' % t)
        if p[0] == 'ss':
            if t == 'seq':
                return ('seq', self.seq_slice(s, v[1], p[1], p[2]))
            raise Undecided('slice of %s' % t)
        if p[0] == 'cast':
            return self.dom.castview(self, s, v, p)
        raise Undecided('proj')

    def sym_variant(self, s, v, vi=None):
        b = s.facts.b.get(v[1])
        if b is None:
            if vi is None:
                b = s.choose(v[1], [x for x, _ in v[2]])
            else:
                b = vi
        for x, f in v[2]:
            if x == b:
                return ('adt', b, f)
        raise Undecided('variant')

    def store(self, s, cell, projs, v):
        if cell[0] == 'snap':
            raise Undecided('write through snapshot')
        projs = tuple(p for p in projs)
        if not projs:
            s.set(cell, v)
            return
        root = s.mem.get(cell)
        s.set(cell, self.update(s, root, projs, 0, v))

    def update(self, s, old, projs, i, v):
        if i == len(projs):
            return v
        p = projs[i]
        if p[0] == 'd':
            if isinstance(old, tuple) and old[0] == 'symenum':
                old = self.sym_variant(s, old, p[1])
            if old is None or not isinstance(old, tuple) or old[0] != 'adt' or old[1] != p[1]:
                old = ('adt', p[1], ())
            return self.update(s, old, projs, i + 1, v)
        if p[0] == 'f':
            if old is None:
                old = ('adt', 0, ())
            t = old[0]
            if t in ('adt', 'tup', 'clo'):
                k = len(old) - 1
                fs = list(old[k])
                while len(fs) <= p[1]:
                    fs.append(('top', 'uninit'))
                fs[p[1]] = self.update(s, fs[p[1]], projs, i + 1, v)
                return old[:k] + (tuple(fs),)
            if t == 'top':
                old = ('adt', 0, ())
                return self.update(s, old, projs, i, v)
            if self.dom is not None:
                r = self.dom.setfield(self, s, old, p[1], lambda o: self.update(s, o, projs, i + 1, v))
                if r is not None:
                    return r
            raise Undecided('write field of %s' % t)
        if p[0] == 'e':
            if old[0] != 'seq':
                raise Undecided('write index of %s' % old[0])
            segs = old[1]
            idx = p[1]
            if isinstance(idx, tuple) and idx[0] == 'rs':
                raise Undecided('write into run')
            k, off = self.seq_locate(s, segs, idx)
            if k >= len(segs):
                raise Panic('index out of bounds')
            sg = segs[k]
            if sg[0] == 'e':
                return ('seq', norm_segs(segs[:k] + (('e', self.update(s, sg[1], projs, i + 1, v)),) + segs[k + 1:]))
            a = self.seq_slice(s, segs, 0, idx)
            b = self.seq_slice(s, segs, L.add(idx, 1), seq_len(segs))
            if i + 1 != len(projs):
                raise Undecided('nested write into opaque seq')
            return ('seq', norm_segs(a + (('e', v),) + b))
        if p[0] == 'ss':
            segs = old[1]
            a = self.seq_slice(s, segs, 0, p[1])
            m = self.seq_slice(s, segs, p[1], p[2])
            b = self.seq_slice(s, segs, p[2], seq_len(segs))
            m = self.update(s, ('seq', m), projs, i + 1, v)
            return ('seq', norm_segs(a + m[1] + b))
        if p[0] == 'cast':
            r = self.dom.castwrite(self, s, old, p, lambda o: self.update(s, o, projs, i + 1, v))
            return r
        raise Undecided('write proj')

    # ---------------------------------------------------------- sequences
    def ptr_len(self, s, p):
        """length of the sequence behind a pointer"""
        for _ in range(6):
            if isinstance(p, tuple) and p[0] == 'ref' and p[2] and p[2][-1][0] == 'ss':
                return L.sub(p[2][-1][2], p[2][-1][1])
            if isinstance(p, tuple) and p[0] == 'ref' and not p[2]:
                a = s.g(('alloc', p[1]))
                if a is not None:
                    return a[0]
            if isinstance(p, tuple) and p[0] == 'ref' and p[2] and p[2][-1][0] == 'cast':
                n = self.dom.castlen(self, s, p)
                if n is not None:
                    return n
            if not (isinstance(p, tuple) and p[0] in ('ref', 'snap')):
                break
            v = self.deref(s, p)
            if not (isinstance(v, tuple) and v[0] in ('ref', 'snap')):
                return self.len_of(s, v)
            p = v
        return self.len_of(s, p)

    def len_of(self, s, v):
        if v[0] == 'seq':
            return seq_len(v[1])
        if v[0] == 'strlit':
            return len(v[1])
        if self.dom is not None:
            r = self.dom.length(self, s, v)
            if r is not None:
                return r
        raise Undecided('len of %s' % (v[0],))

    def seq_locate(self, s, segs, idx):
        """(k, off): element idx lies in segment k at offset off; k == len(segs) when idx == len"""
        if isinstance(idx, tuple) and idx[0] == 'rs':
            return idx[1], 0
        pos = 0
        for k, sg in enumerate(segs):
            n = seg_len(sg)
            end = L.add(pos, n)
            if s.ask(L.lt(idx, end)):
                off = L.sub(idx, pos)
                x = s.facts.value(off)
                return k, off if x is None else x
            pos = end
        if s.facts.prove(L.eq(idx, pos)) is True:
            return len(segs), 0
        return len(segs), L.sub(idx, pos)

    def seq_get(self, s, segs, idx):
        k, off = self.seq_locate(s, segs, idx)
        if k >= len(segs):
            raise Panic('index out of bounds')
        return self.seg_elem(s, segs[k], off)

    def seg_elem(self, s, sg, off):
        t = sg[0]
        if t == 'e':
            return sg[1]
        if t == 'rep':
            return sg[1]
        if t == 'run':
            return sg[3]
        if t in ('n', 'ns'):
            base = sg[4] if t == 'ns' else 0
            if isinstance(sg[3], int):
                return explode(('n',) + sg[1:4])[base + off][1]
            if isinstance(off, int):
                i = base + off
                sh = 8 * ((sg[2] - 1 - i) if sg[1] == 'be' else i)
                if sh == 0:
                    return self.bv_trunc(s, sg[3], 8)
                b = self.to_bv(s, sg[3], sg[2] * 8)
                if b is not None:
                    return bvnorm(b[sh:sh + 8])
                return L.atom(('byteof', sg[1:4], i))
        if t == 's':
            a = ('byte', sg[1], L.add(sg[2], off))
            s.range(a, 0, 255)
            return L.atom(a)
        raise Undecided('element of %s' % t)

    def bv_trunc(self, s, v, w):
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        if L.is_lin(v):
            lo, hi = s.facts.interval(v)
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << w):
                return v
        b = self.to_bv(s, v, None)
        if b is None:
            return ('top', 'trunc')
        return bvnorm(b[:w])

    def seq_slice(self, s, segs, lo, hi):
        left, rest = self.seq_cut(s, segs, lo)
        if lo != 0:
            segs2 = rest
        else:
            segs2 = segs
        n = seq_len(segs2)
        w = L.sub(hi, lo)
        if w == n:
            return norm_segs(segs2)
        left, rest = self.seq_cut(s, segs2, w)
        return left

    def seq_cut(self, s, segs, pos):
        if pos == 0:
            return (), segs
        at = 0
        for k, sg in enumerate(segs):
            if s.facts.prove(L.eq(pos, at)) is True:
                return norm_segs(segs[:k]), norm_segs(segs[k:])
            end = L.add(at, seg_len(sg))
            if not s.ask(L.lt(pos, end)):
                at = end
                continue
            if s.ask(L.eq(pos, at)):
                return norm_segs(segs[:k]), norm_segs(segs[k:])
            off = L.sub(pos, at)
            x = s.facts.value(off)
            if x is not None:
                off = x
            t = sg[0]
            if t == 's':
                a = ('s', sg[1], sg[2], L.add(sg[2], off))
                b = ('s', sg[1], L.add(sg[2], off), sg[3])
            elif t == 'rep':
                a = ('rep', sg[1], off)
                b = ('rep', sg[1], L.sub(sg[2], off))
            elif t in ('n', 'ns'):
                if not isinstance(off, int):
                    w = seg_len(sg)
                    for j in range(1, w):
                        if j == w - 1 or s.ask(L.eq(off, j)):
                            off = j
                            break
                base, top = (sg[4], sg[5]) if t == 'ns' else (0, sg[2])
                a = ('ns', sg[1], sg[2], sg[3], base, base + off)
                b = ('ns', sg[1], sg[2], sg[3], base + off, top)
            else:
                raise Undecided('cut inside %s' % t)
            return norm_segs(segs[:k] + (a,)), norm_segs((b,) + segs[k + 1:])
        if s.facts.prove(L.eq(pos, at)) is True:
            return norm_segs(segs), ()
        if s.facts.prove(L.le(pos, at)) is False:
            raise Panic('slice index out of range')
        s.assume(L.eq(pos, at))
        return norm_segs(segs), ()

    def ptr_seq(self, s, v):
        """the sequence value behind a pointer (or the sequence itself)"""
        for _ in range(6):
            if isinstance(v, tuple) and v[0] in ('ref', 'snap'):
                v = self.deref(s, v)
            else:
                break
        if isinstance(v, tuple) and v[0] == 'seq':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'strlit':
            return tuple(('e', x) for x in v[1].encode())
        if self.dom is not None:
            r = self.dom.as_seq(self, s, v)
            if r is not None:
                return r
        raise Undecided('not a sequence: %s' % (v[0] if isinstance(v, tuple) else v,))

    def deref(self, s, v):
        if v[0] == 'ref':
            return self.load(s, v[1], v[2])
        if v[0] == 'snap':
            return v[1]
        if self.dom is not None:
            r = self.dom.deref(self, s, v)
            if r is not None:
                return self.load(s, r[0], r[1])
        raise Undecided('deref of %s' % v[0])

    def proj_ptr(self, v, *ps):
        if v[0] == 'ref':
            return ('ref', v[1], v[2] + tuple(ps))
        if v[0] == 'snap':
            return ('snapp', v, tuple(ps))
        raise Undecided('projection of %s' % v[0])

    def elem_ptr(self, s, ptr, *ps):
        """pointer to a sub-place of *ptr; snapshots are projected eagerly"""
        if ptr[0] == 'ref':
            return ('ref', ptr[1], ptr[2] + tuple(ps))
        if ptr[0] == 'snap':
            v = ptr[1]
            for p in ps:
                v = self.project(s, v, p)
            return ('snap', v) + ptr[2:]
        raise Undecided('element pointer of %s' % ptr[0])

    def write_ptr(self, s, ptr, v):
        if ptr[0] != 'ref':
            raise Undecided('write through %s' % ptr[0])
        self.store(s, ptr[1], ptr[2], v)

    # ---------------------------------------------------------- statements
    def stmt(self, s, d, body, st):
        self.cs = s
        op = st[0]
        if op == '=':
            v = self.rvalue(s, d, body, st[2])
            cell, projs = self.resolve(s, d, st[1])
            self.store(s, cell, projs, v)
        elif op == 'dead':
            s.kill((d, st[1]))
        elif op == 'sd':
            cell, projs = self.resolve(s, d, st[1])
            old = self.load(s, cell, projs)
            self.store(s, cell, projs, ('adt', st[2], old[2] if old[0] == 'adt' and old[1] == st[2] else ()))
        elif op == 'assume':
            pass
        elif op == 'memcpy':
            self.dom_or('memcpy', s, [self.operand(s, d, x) for x in st[1:4]])
        else:
            raise Undecided('stmt ' + op)

    def dom_or(self, what, s, args):
        if self.dom is not None:
            f = getattr(self.dom, 'op_' + what, None)
            if f is not None:
                return f(self, s, args)
        raise Undecided(what)

    def operand(self, s, d, o):
        k = o[0]
        if k == 'c':
            cell, projs = self.resolve(s, d, o[1])
            return self.load(s, cell, projs)
        if k == 'm':
            cell, projs = self.resolve(s, d, o[1])
            v = self.load(s, cell, projs)
            if not projs and cell[0] == d:
                # moved-from local: forget it so that it does not keep states apart
                if isinstance(v, tuple) and v[0] not in ('adt',):
                    s.kill(cell)
            return v
        if k == 'k':
            return self.const(s, o[1], o[2])
        if k == 'rc':
            return 1 if o[1] else 0
        raise Undecided('operand')

    def const(self, s, ty, c):
        if 'int' in c:
            n = int(c['int'])
            t = self.T[ty]
            if t.get('k') == 'int' and t['signed']:
                n = wrap(t, n)
            if t.get('k') in ('int', 'bool', 'char'):
                return n
            if t.get('k') == 'adt':
                for i, v in enumerate(t.get('variants', ())):
                    if t['enum'] and int(v['discr']) == n and not v['fields']:
                        return ('adt', i, ())
                # newtype-like struct around an integer
                vs = t.get('variants')
                if vs and not t['enum'] and len(vs[0]['fields']) == 1:
                    return ('adt', 0, (self.const(s, vs[0]['fields'][0][1], c),))
                return n
            return n
        if 'fn' in c:
            return ('fn', ty)
        if 'str' in c:
            return ('snap', ('strlit', c['str']))
        if 'bytes' in c:
            return ('snap', bytes_seq(c['bytes']))
        if 'zst' in c:
            t = self.T[ty]
            if t.get('k') == 'fndef':
                return ('fn', ty)
            if t.get('k') == 'tuple':
                return UNIT
            if t.get('k') == 'closure':
                return ('clo', ty, ())
            if t.get('k') == 'array':
                return ('seq', ())
            return ('adt', 0, ())
        if 'ref' in c:
            t = self.T[ty]
            return ('snap', self.const(s, t.get('t', ty), c['ref']))
        if 'agg' in c:
            t = self.T[ty]
            fs = tuple(self.const(s, ft, j) for j, ft in c['agg'])
            if t.get('k') == 'array':
                return ('seq', tuple(('e', f) for f in fs))
            if t.get('k') == 'tuple':
                return ('tup', fs)
            return ('adt', c['variant'] or 0, fs)
        if 'fnptr' in c:
            return ('fnptr', ('callee', _freeze(c['fnptr'])))
        if 'opaque' in c:
            if self.dom is not None:
                r = self.dom.opaque_const(self, s, ty, c)
                if r is not None:
                    return r
            return ('top', 'const ' + str(c.get('named') or c['opaque'])[:60])
        raise Undecided('const')

    def place_ty(self, body, place):
        t = body['locals'][place[0]][0]
        for e in place[1:]:
            ty = self.T[t]
            if e == '*':
                if 't' in ty:
                    t = ty['t']
                elif ty.get('path') == 'std::boxed::Box':
                    t = ty['args'][0]
                else:
                    return None
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = ty.get('t')
            elif e[0] in ('d', 'ss'):
                pass
            if t is None:
                return None
        return t

    def op_ty(self, body, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(body, o[1])
        if o[0] == 'k':
            return o[1]
        return None

    def rvalue(self, s, d, body, r):
        k = r[0]
        if k == 'use':
            return self.operand(s, d, r[1])
        if k == 'ref' or k == 'rawptr':
            cell, projs = self.resolve(s, d, r[2])
            if cell[0] == 'snap':
                v = cell[1]
                for p in projs:
                    v = self.project(s, v, p)
                return ('snap', v) + cell[2:]
            # indices are evaluated now
            return ('ref', cell, projs)
        if k == 'discr':
            if self.T[self.place_ty(body, r[1])]['s'] in ('std::option::Option<!>', 'std::option::Option<std::convert::Infallible>'):
                return 0
            cell, projs = self.resolve(s, d, r[1])
            v = self.load(s, cell, projs)
            return self.discr(s, v, self.place_ty(body, r[1]))
        if k == 'bin':
            a = self.operand(s, d, r[2])
            b = self.operand(s, d, r[3])
            return self.binop(s, r[1], a, b, self.op_ty(body, r[2]), body)
        if k == 'un':
            a = self.operand(s, d, r[2])
            return self.unop(s, r[1], a, self.op_ty(body, r[2]))
        if k == 'cast':
            return self.cast(s, r[1], self.operand(s, d, r[2]), self.op_ty(body, r[2]), r[3])
        if k == 'agg':
            ops = tuple(self.operand(s, d, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'tuple':
                return ('tup', ops)
            if kk[0] == 'array':
                return ('seq', tuple(('e', o) for o in ops))
            if kk[0] == 'adt':
                return ('adt', kk[2], ops)
            if kk[0] == 'closure':
                return ('clo', kk[1], ops)
            raise Undecided('aggregate ' + kk[0])
        if k == 'repeat':
            v = self.operand(s, d, r[1])
            n = r[2]
            if n is None:
                raise Undecided('repeat')
            if n <= 64:
                return ('seq', tuple(('e', v) for _ in range(n)))
            return ('seq', (('rep', v, n),))
        raise Undecided('rvalue %s' % (r[:2],))

    def discr(self, s, v, ty):
        if isinstance(v, tuple) and v[0] == 'symenum':
            v = self.sym_variant(s, v)
        if isinstance(v, tuple) and v[0] == 'adt':
            t = self.T[ty] if ty is not None else None
            if t and t.get('enum') and t.get('variants'):
                return int(t['variants'][v[1]]['discr'])
            return v[1]
        if self.dom is not None:
            r = self.dom.discr(self, s, v, ty)
            if r is not None:
                return r
        raise Undecided('discriminant of %s' % (v[:2] if isinstance(v, tuple) else v,))

    # ---------------------------------------------------------- integers
    def as_num(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] == 'lin':
            return v
        if isinstance(v, tuple) and v[0] == 'bv':
            n = bv_to_lin(v[1], self.cs.facts)
            return L.atom(('bvval', v[1])) if n is None else n
        return None

    def to_bv(self, s, v, w):
        if isinstance(v, int):
            w = w or max(v.bit_length(), 1)
            return tuple((v >> i) & 1 for i in range(w))
        if v[0] == 'bv':
            b = v[1]
            if w is not None:
                b = tuple(b[:w]) + (0,) * max(0, w - len(b))
            return b
        if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            a = v[2][0][0]
            lo, hi = s.facts.bounds(a)
            if lo is not None and lo >= 0:
                if hi is None:
                    return None
                if lo == hi:
                    return self.to_bv(s, lo, w)
                n = hi.bit_length()
                b = tuple(('b', a, i) for i in range(n))
                if w is not None:
                    b = b[:w] + (0,) * max(0, w - len(b))
                return b
        return None

    def binop(self, s, op, a, b, ty, body=None):
        t = self.T[ty] if ty is not None else {}
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(s, op, a, b, t)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = self.arithop(s, op[:3], a, b, t)
            return ('tup', (r, self.ovf(s, r, t)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = self.arithop(s, op[:3], a, b, t)
            if isinstance(r, int) and t.get('k') == 'int':
                return wrap(t, r)
            return r
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if t.get('k') == 'bool' or (isinstance(a, tuple) and a[0] == 'cond') or (isinstance(b, tuple) and b[0] == 'cond'):
                fa, fb = self.formula(a), self.formula(b)
                if op == 'BitAnd':
                    return self.cond(L.and_(fa, fb))
                if op == 'BitOr':
                    return self.cond(L.or_(fa, fb))
                x = s.ask(fa) if fa not in (True, False) else fa
                return self.cond(L.neg(fb) if x else fb)
            if isinstance(a, int) and isinstance(b, int):
                return wrap(t, {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op])
            w = t.get('w')
            x, y = self.to_bv(s, a, w), self.to_bv(s, b, w)
            if x is None or y is None:
                # masks on unknown values
                if op == 'BitAnd' and isinstance(b, int):
                    a, b = b, a
                if op == 'BitAnd' and isinstance(a, int) and a >= 0:
                    f = s.fresh('and')
                    s.range(f, 0, a)
                    return L.atom(f)
                return ('top', op)
            out = []
            for p, q in zip(x, y):
                out.append(bitop(op, p, q))
            if any(o is None for o in out):
                return ('top', op)
            return bvnorm(tuple(out))
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            n = b if isinstance(b, int) else s.facts.value(self.as_num(b)) if self.as_num(b) is not None else None
            if n is None:
                return ('top', op)
            w = t['w']
            n %= w
            if isinstance(a, int):
                return wrap(t, a << n if op[:3] == 'Shl' else a >> n)
            x = self.to_bv(s, a, w)
            if x is None:
                if op[:3] == 'Shl' and self.as_num(a) is not None:
                    lo, hi = s.facts.interval(self.as_num(a))
                    if hi is not None and (hi << n) <= imax(t):
                        return L.scale(self.as_num(a), 1 << n)
                return ('top', op)
            if op[:3] == 'Shl':
                x = (0,) * n + x[:w - n]
            else:
                x = x[n:] + (0,) * n
            return bvnorm(x)
        if op in ('Div', 'Rem'):
            return self.divrem(s, op, a, b, t)
        if op == 'Offset':
            return self.dom_or('offset', s, [a, b])
        if op == 'Cmp':
            x = self.compare(s, 'Lt', a, b, t)
            if s.ask(self.formula(x)):
                return ('adt', 0, ())
            if s.ask(self.formula(self.compare(s, 'Eq', a, b, t))):
                return ('adt', 1, ())
            return ('adt', 2, ())
        raise Undecided('binop ' + op)

    def divrem(self, s, op, a, b, t):
        a, b = self.as_num(a), self.as_num(b)
        if a is None or b is None:
            return ('top', op)
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise Panic('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == 'Div' else a - q * b
        if isinstance(b, int) and b > 0:
            q = ('quo', a, b)
            qa = L.atom(q)
            lo, hi = s.facts.interval(a)
            if lo is None or lo < 0:
                return ('top', op)
            s.range(q, 0, None if hi is None else hi // b)
            s.assume(L.le(L.scale(qa, b), a))
            s.assume(L.le(a, L.add(L.scale(qa, b), b - 1)))
            return qa if op == 'Div' else L.sub(a, L.scale(qa, b))
        return ('top', op)

    def arithop(self, s, op, a, b, t):
        if not (isinstance(a, int) and isinstance(b, int)):
            if (isinstance(a, tuple) and a[0] == 'obj') or (isinstance(b, tuple) and b[0] == 'obj'):
                if self.dom is not None:
                    r = self.dom.arith(self, s, op, a, b)
                    if r is not None:
                        return r
            a, b = self.as_num(a), self.as_num(b)
            if a is None or b is None:
                return ('top', op)
        if op == 'Add':
            return L.add(a, b)
        if op == 'Sub':
            return L.sub(a, b)
        if isinstance(a, int):
            return L.scale(b, a)
        if isinstance(b, int):
            return L.scale(a, b)
        x, y = s.facts.value(a), s.facts.value(b)
        if x is not None:
            return L.scale(b, x)
        if y is not None:
            return L.scale(a, y)
        f = ('mul', a, b)
        la, ha = s.facts.interval(a)
        lb, hb = s.facts.interval(b)
        if la is not None and lb is not None and la >= 0 and lb >= 0:
            s.range(f, la * lb, ha * hb if ha is not None and hb is not None else None)
            return L.atom(f)
        return ('top', op)

    def ovf(self, s, r, t):
        if isinstance(r, tuple) and r[0] in ('top', 'obj', 'bv'):
            return ('top', 'overflow?') if r[0] == 'top' else 0
        if t.get('k') != 'int':
            return 0
        f = L.or_(L.neg(L.le(r, imax(t))), L.neg(L.le(imin(t), r)))
        return self.cond(f)

    def unop(self, s, op, a, ty):
        if op == 'Not':
            if isinstance(a, tuple) and a[0] == 'cond':
                return self.cond(L.neg(a[1]))
            t = self.T[ty] if ty is not None else {}
            if t.get('k') == 'bool':
                if isinstance(a, int):
                    return 1 - a
                return self.cond(L.neg(self.formula(a)))
            if isinstance(a, int):
                return wrap(t, ~a)
            x = self.to_bv(s, a, t.get('w'))
            if x is None or any(isinstance(b, tuple) for b in x):
                return ('top', 'not')
            return bvnorm(tuple(1 - b for b in x))
        if op == 'Neg':
            n = self.as_num(a)
            if n is None:
                return ('top', 'neg')
            return L.scale(n, -1)
        if op == 'PtrMetadata':
            if a[0] in ('ref', 'snap'):
                return self.ptr_len(s, a)
            if self.dom is not None:
                r = self.dom.length(self, s, a)
                if r is not None:
                    return r
            raise Undecided('metadata of %s' % (a[:2],))
        raise Undecided('unop ' + op)

    def cond(self, f):
        if f is True:
            return 1
        if f is False:
            return 0
        return ('cond', f)

    def formula(self, v):
        if isinstance(v, int):
            return v != 0
        if v[0] == 'cond':
            return v[1]
        if v[0] == 'lin':
            return L.neg(L.eq(v, 0))
        raise Undecided('condition on %s' % (v[:2],))

    def compare(self, s, op, a, b, t):
        if isinstance(a, tuple) and a[0] == 'cond':
            a = 1 if s.ask(a[1]) else 0
        if isinstance(b, tuple) and b[0] == 'cond':
            b = 1 if s.ask(b[1]) else 0
        if self.dom is not None and not (isinstance(a, int) and isinstance(b, int)):
            r = self.dom.compare(self, s, op, a, b)
            if r is not None:
                return r
        # shifted/masked views of one atom
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x[0] == 'bv':
                n = bv_to_lin(x[1], s.facts)
                if n is None:
                    z = bv_shr(x[1])
                    if z is not None and isinstance(y, int):
                        at, k = z
                        o = op if not flip else {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
                        A = L.atom(at)
                        lo, hi = y << k, (y + 1) << k
                        f = {'Lt': L.lt(A, lo), 'Ge': L.neg(L.lt(A, lo)), 'Le': L.lt(A, hi), 'Gt': L.neg(L.lt(A, hi)),
                             'Eq': L.and_(L.neg(L.lt(A, lo)), L.lt(A, hi))}
                        f['Ne'] = L.neg(f['Eq'])
                        return self.cond(f[o])
                    if isinstance(y, int) and op in ('Eq', 'Ne'):
                        f = True
                        for i, bit in enumerate(x[1]):
                            yb = (y >> i) & 1
                            if isinstance(bit, int):
                                if bit != yb:
                                    f = False
                            else:
                                g = ('b', ('bit',) + bit[1:]) if bit[0] == 'b' else None
                                if g is None:
                                    raise Undecided('bit compare')
                                f = L.and_(f, g if yb else L.neg(g))
                        if y >> len(x[1]):
                            f = False
                        return self.cond(f if op == 'Eq' else L.neg(f) if f not in (True, False) else (not f))
                    raise Undecided('bit-vector comparison')
        a2, b2 = self.as_num(a), self.as_num(b)
        if a2 is None or b2 is None:
            if isinstance(a, tuple) and a[0] in ('ref', 'snap') and isinstance(b, tuple) and b[0] in ('ref', 'snap') and op in ('Eq', 'Ne') and a == b:
                return 1 if op == 'Eq' else 0
            raise Undecided('comparison of %s and %s' % (a[0] if isinstance(a, tuple) else a, b[0] if isinstance(b, tuple) else b))
        f = {'Eq': lambda: L.eq(a2, b2), 'Ne': lambda: L.neg(L.eq(a2, b2)), 'Lt': lambda: L.lt(a2, b2),
             'Le': lambda: L.le(a2, b2), 'Gt': lambda: L.lt(b2, a2), 'Ge': lambda: L.le(b2, a2)}[op]()
        return self.cond(f)

    def cast(self, s, kind, v, fty, tty):
        t = self.T[tty]
        if kind == 'IntToInt':
            if isinstance(v, tuple) and v[0] == 'cond':
                v = 1 if s.ask(v[1]) else 0
            if isinstance(v, int):
                return wrap(t, v)
            if v[0] in ('top', 'obj'):
                return v
            f = self.T[fty] if fty is not None else {}
            n = self.as_num(v)
            if v[0] == 'bv' and len(v[1]) <= t['w'] - (1 if t['signed'] else 0):
                return v
            if n is not None:
                lo, hi = s.facts.interval(n)
                if not (lo is not None and lo >= imin(t) and hi is not None and hi <= imax(t)):
                    if f.get('k') == 'int':
                        lo = imin(f) if lo is None else max(lo, imin(f))
                        hi = imax(f) if hi is None else min(hi, imax(f))
                if lo is not None and lo >= imin(t) and hi is not None and hi <= imax(t):
                    return v if v[0] == 'lin' else n
                if s.facts.prove(L.le(n, imax(t))) is True and s.facts.prove(L.le(imin(t), n)) is True:
                    return n
            b = self.to_bv(s, v, None)
            if b is not None:
                return bvnorm(b[:t['w']])
            if self.dom is not None:
                r = self.dom.truncate(self, s, v, t)
                if r is not None:
                    return r
            return ('top', 'truncation')
        if kind.startswith('Coerce:ClosureFn') or kind.startswith('Coerce:Reify') or kind.startswith('Coerce:Unsafe'):
            return v
        if kind.startswith('Coerce:') or kind in ('PtrToPtr', 'FnPtrToPtr'):
            if kind == 'PtrToPtr' and self.dom is not None:
                r = self.dom.ptrcast(self, s, v, fty, tty)
                if r is not None:
                    return r
            return v
        if kind in ('Transmute', 'Subtype'):
            f = self.T[fty] if fty is not None else {}
            if f.get('k') in ('ref', 'ptr') and t.get('k') in ('ref', 'ptr'):
                return v if self.dom is None else self.dom.extend(self, s, v)
            if f.get('s') == t.get('s'):
                return v
            if self.dom is not None:
                r = self.dom.transmute(self, s, v, fty, tty)
                if r is not None:
                    return r
            raise Undecided('transmute %s -> %s' % (f.get('s'), t.get('s')))
        if kind.startswith('Pointer') or kind == 'BoxDerefTransmute':
            return v
        raise Undecided('cast ' + kind)

    # ---------------------------------------------------------- terminators
    def term(self, s, d, body, blk):
        self.cs = s
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return t[1]
        if k == 'switch':
            v = self.operand(s, d, t[1])
            ty = self.T[t[4]]
            return self.switch(s, v, t[2], t[3], ty)
        if k == 'return':
            return ('ret',)
        if k == 'unreachable':
            raise Infeasible()
        if k == 'resume':
            raise Infeasible()
        if k == 'assert':
            return self.do_assert(s, d, body, blk, t)
        if k == 'call':
            return self.do_call(s, d, body, blk, t)
        if k == 'drop':
            cell, projs = self.resolve(s, d, t[1])
            outs = self.drop_place(s, cell, projs, t[3])
            return self.to_outs(outs, t[2])
        raise Undecided('terminator ' + str(t[1])[:80])

    def to_outs(self, outs, tgt):
        if len(outs) == 1 and outs[0][1] == 'ret' and False:
            return tgt
        return ('outs', [(o[0], o[1], o[2], tgt) for o in outs])

    def switch(self, s, v, arms, other, ty):
        if isinstance(v, tuple) and v[0] == 'cond':
            v = 1 if s.ask(v[1]) else 0
        if isinstance(v, tuple) and v[0] == 'bv':
            n = bv_to_lin(v[1], s.facts)
            if n is not None:
                v = n
        if isinstance(v, int):
            for x, bb in arms:
                x = int(x)
                if ty.get('k') == 'int':
                    x = wrap(ty, x)
                    if wrap(ty, v) == x:
                        return bb
                elif x == v:
                    return bb
            return other
        if v[0] == 'lin':
            for x, bb in arms:
                x = int(x)
                if ty.get('k') == 'int':
                    x = wrap(ty, x)
                if s.ask(L.eq(v, x)):
                    return bb
            return other
        if v[0] == 'bv':
            for x, bb in arms:
                c = self.compare(s, 'Eq', v, int(x), ty)
                if s.ask(self.formula(c)):
                    return bb
            return other
        if self.dom is not None:
            r = self.dom.switch(self, s, v, arms, other, ty)
            if r is not None:
                return r
        raise Undecided('switch on %s' % (v[:2],))

    def do_assert(self, s, d, body, blk, t):
        c = self.operand(s, d, t[1])
        exp = t[2]
        kind = t[3][0]
        where = '%s %s' % (body['np'], blk['sp'])
        if isinstance(c, tuple) and c[0] == 'top':
            if kind in ('overflow', 'overflowneg', 'bounds') and self.overflow == 'assume':
                return t[4]
            raise Undecided('assert on unknown value at ' + where)
        f = self.formula(c)
        if not exp:
            f = L.neg(f)
        r = s.facts.prove(f)
        if r is True:
            return t[4]
        pol = self.bounds if kind == 'bounds' else self.overflow
        if r is None and pol == 'assume' and kind in ('bounds', 'overflow', 'overflowneg'):
            s.assume(f)
            return t[4]
        if r is None and self.dom is not None and self.dom.on_assert(self, s, body, blk, t, f) == 'assume':
            s.assume(f)
            return t[4]
        if r is None:
            if s.ask(f):
                return t[4]
        return ('panic', '%s at %s' % ({'bounds': 'index out of bounds', 'overflow': 'arithmetic overflow'}.get(kind, kind), where))

    def do_call(self, s, d, body, blk, t):
        args = [self.operand(s, d, a) for a in t[2]]
        f = t[1]
        dest = t[3]
        tgt = t[4]
        if f[0] == 'k':
            callee = self.T[f[1]]['callee']
            if self.dom is not None:
                self.dom.site = (body, blk)
            self.site = (body, blk)
            outs = self.call(s, callee, args)
        else:
            fv = self.operand(s, d, f)
            outs = self.call_value(s, fv, args)
        res = []
        for s2, kind, v in outs:
            if kind == 'ret':
                if tgt is None:
                    continue
                try:
                    cell, projs = self.resolve(s2, d, dest)
                    self.store(s2, cell, projs, v)
                except Infeasible:
                    continue
                res.append((s2, 'ret', v, tgt))
            else:
                res.append((s2, kind, v, None))
        return ('outs', res)

    # ---------------------------------------------------------- calls
    def split(self, s, f):
        """[(state, truth)] for the feasible truths of f"""
        r = s.facts.prove(f)
        if r is not None:
            return [(s, r)]
        out = []
        for alt, tr in ((f, True), (L.neg(f), False)):
            s2 = s.copy()
            if s2.apply(('f', alt)):
                out.append((s2, tr))
        return out

    def branch(self, s, fn):
        """run fn(s) (which may ask) under every needed case split: [(state, value)]"""
        work = [s]
        out = []
        while work:
            x = work.pop()
            m = x.mark()
            self.cs = x
            try:
                out.append((x, fn(x)))
            except Fork as f:
                x.rollback(m)
                for alt in f.alts:
                    y = x.copy()
                    if y.apply(alt):
                        work.append(y)
            except Infeasible:
                pass
        return out

    def call_value(self, s, f, args):
        """call a callable value with already untupled args"""
        for _ in range(4):
            if f[0] in ('ref', 'snap'):
                g = self.deref(s, f)
                if g[0] == 'clo':
                    body = self.P.bodies.get(self.T[g[1]].get('inst'))
                    if body is None:
                        raise Undecided('closure without body')
                    return self.run_clo(s, body, f, args)
                f = g
            else:
                break
        if f[0] == 'fn':
            return self.call(s, self.T[f[1]]['callee'], args)
        if f[0] == 'fnptr':
            return self.call(s, _thaw(f[1][1]), args)
        if f[0] == 'clo':
            body = self.P.bodies.get(self.T[f[1]].get('inst'))
            if body is None:
                raise Undecided('closure without body')
            # by-value self or a temporary for by-ref closures
            if self.T[f[1]].get('ck') == 'FnOnce' or self._self_by_value(body):
                return self.run_clo(s, body, f, args)
            k = s.alloc(f)
            return self.run_clo(s, body, ('ref', k, ()), args)
        if self.dom is not None:
            r = self.dom.call_opaque(self, s, f, args)
            if r is not None:
                return r
        raise Undecided('call of %s' % (f[:2],))

    def _self_by_value(self, body):
        t = self.T[body['locals'][1][0]]
        return t.get('k') == 'closure'

    def run_clo(self, s, body, selfv, args):
        if self._self_by_value(body) and selfv[0] in ('ref', 'snap'):
            selfv = self.deref(s, selfv)
        if body['argc'] == 1 + len(args):
            return self.run_body(s, body, [selfv] + list(args))
        if body['argc'] == 2 and body.get('spread') is not None:
            return self.run_body(s, body, [selfv, ('tup', tuple(args))])
        raise Undecided('closure arity')

    def call(self, s, c, args):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Undecided('time budget')
        name = self.P.norm(c.get('rpath') or c['path'])
        if self.dom is not None:
            r = self.dom.call(self, s, c, name, args)
            if r is not None:
                return r
        if 'ctor' in c:
            vi = 0
            if 'variant' in c:
                vi = self.ctor_variant(c)
            return [(s, 'ret', ('adt', vi, tuple(args)))]
        tr = c.get('trait')
        if tr in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce'):
            fv = args[0]
            tup = args[1]
            if tup[0] != 'tup':
                raise Undecided('fn args')
            return self.call_value(s, fv, list(tup[1]))
        key = c.get('inst')
        if key is not None and key in self.P.bodies and name not in self.models.get('!force', ()):
            b = self.P.bodies[key]
            return self.run_body(s, b, args)
        return self.library(s, c, name, args)

    def ctor_variant(self, c):
        key = (c['ctor'], c['variant'])
        m = getattr(self, '_ctor', None)
        if m is None:
            m = self._ctor = {}
            for t in self.T:
                if t.get('k') == 'adt' and t.get('variants') and t.get('enum'):
                    for i, v in enumerate(t['variants']):
                        m[(t['path'], v['name'])] = i
        if key not in m:
            raise Undecided('ctor %s' % (key,))
        return m[key]

    def library(self, s, c, name, args):
        m = self.models.get(name)
        if m is None and c.get('trait'):
            m = self.models.get(self.P.norm(c['path']))
            if m is None:
                m = self.models.get('*::' + c['trait'].split('::')[-1] + '::' + c['method'])
        if m is None:
            raise Undecided('no model for ' + name)
        self.modelled[name] = self.modelled.get(name, 0) + 1
        r = m(self, s, c, args)
        if isinstance(r, list):
            return r
        return [(s, 'ret', r)]

    def tmeth(self, ty, name):
        return self.P.tmeth.get(ty, {}).get(name)

    # ---------------------------------------------------------- drops
    def needs_drop(self, ty, depth=0):
        if ty in self._nd:
            return self._nd[ty]
        self._nd[ty] = False
        t = self.T[ty]
        r = False
        k = t.get('k')
        if k in ('adt', 'tuple', 'array', 'closure', 'slice', 'param', 'alias'):
            if t.get('dropinst'):
                r = True
            elif k == 'adt' and t['path'].endswith('mem::ManuallyDrop'):
                r = False
            elif k in ('param', 'alias'):
                r = self.dom is not None and self.dom.param_drops
            else:
                sub = []
                if k == 'tuple':
                    sub = t['ts']
                elif k == 'closure':
                    sub = t['upvars']
                elif k in ('array', 'slice'):
                    sub = [t['t']]
                else:
                    for v in t.get('variants') or ():
                        sub += [f[1] for f in v['fields']]
                    if not t.get('variants'):
                        sub = t.get('args', [])
                r = any(self.needs_drop(x) for x in sub)
        self._nd[ty] = r
        return r

    def drop_place(self, s, cell, projs, ty):
        """outcomes of dropping the value at a place"""
        if not self.needs_drop(ty):
            return [(s, 'ret', UNIT)]
        t = self.T[ty]
        if t.get('k') in ('param', 'alias'):
            self.dom.drop_opaque(self, s, self.load(s, cell, projs), ty)
            return [(s, 'ret', UNIT)]
        outs = [(s, 'ret', UNIT)]
        if t.get('dropinst'):
            b = self.P.bodies.get(t['dropinst'])
            if b is None:
                raise Undecided('drop impl not available')
            outs = self.run_body(s, b, [('ref', cell, projs)])
        steps = []
        try:
            v = self.load(s, cell, projs)
        except Undecided:
            return outs
        k = t.get('k')
        if isinstance(v, tuple) and v[0] == 'obj':
            if self.dom is not None:
                self.dom.drop_opaque(self, s, v, ty)
            return outs
        if k == 'tuple':
            steps = [(('f', i), x) for i, x in enumerate(t['ts'])]
        elif k == 'closure':
            steps = [(('f', i), x) for i, x in enumerate(t['upvars'])]
        elif k == 'adt' and isinstance(v, tuple) and v[0] == 'seq':
            if not t.get('args') or any(x[0] != 'e' for x in v[1]):
                self.dom.drop_opaque(self, s, v, ty)
            else:
                steps = [(('e', i), t['args'][0]) for i in range(len(v[1]))]
        elif k == 'adt' and t.get('variants'):
            vi = 0
            if t['enum']:
                if v[0] == 'symenum':
                    v = self.sym_variant(s, v)
                if v[0] != 'adt':
                    return outs
                vi = v[1]
            steps = [(('f', i), f[1]) for i, f in enumerate(t['variants'][vi]['fields'])]
        elif isinstance(v, tuple) and v[0] == 'seq' and t.get('args'):
            steps = [(('e', i), t['args'][0]) for i in range(len(v[1])) if all(x[0] == 'e' for x in v[1])]
        elif self.dom is not None:
            self.dom.drop_opaque(self, s, v, ty)
        for p, ft in steps:
            if not self.needs_drop(ft):
                continue
            nxt = []
            for s2, kd, vv in outs:
                if kd != 'ret':
                    nxt.append((s2, kd, vv))
                    continue
                try:
                    fv = self.load(s2, cell, projs + (p,))
                except Undecided:
                    nxt.append((s2, kd, vv))
                    continue
                if isinstance(fv, tuple) and fv[0] in ('top', 'moved'):
                    nxt.append((s2, kd, vv))
                    continue
                nxt += self.drop_place(s2, cell, projs + (p,), ft)
            outs = nxt
        return outs

    # ---------------------------------------------------------- byte-string order
    def cmp_segs(self, s, a, b):
        """-1/0/1 for two byte sequences"""
        a, b = norm_segs(a), norm_segs(b)
        if a == b:
            return 0
        ea = [x for g in a for x in explode(g)]
        eb = [x for g in b for x in explode(g)]
        if all(g[0] == 'e' and isinstance(g[1], int) for g in ea) and all(g[0] == 'e' and isinstance(g[1], int) for g in eb):
            x, y = [g[1] for g in ea], [g[1] for g in eb]
            return (x > y) - (x < y)
        if self.dom is not None:
            r = self.dom.cmp_bytes(self, s, a, b)
            if r is not None:
                return r
        from . import grenad as G
        x, y = G.settled(s, a), G.settled(s, b)
        if (x, y) != (a, b):
            return self.cmp_segs(s, x, y)
        raise Undecided('byte-string comparison')

    def eq_segs(self, s, a, b):
        a, b = norm_segs(a), norm_segs(b)
        if a == b:
            return True
        n, m = seq_len(a), seq_len(b)
        if s.facts.prove(L.eq(n, m)) is False:
            return False
        if self.dom is not None:
            r = self.dom.eq_bytes(self, s, a, b)
            if r is not None:
                return r
        return self.cmp_segs(s, a, b) == 0


class Dom:
    """default hooks"""
    param_drops = False
    site = None

    def at_loop(self, I, s, body, bb):
        pass

    def on_undecided(self, I, s, why):
        pass

    def call(self, I, s, c, name, args):
        return None

    def call_opaque(self, I, s, f, args):
        return None

    def deref(self, I, s, v):
        return None

    def field(self, I, s, v, i):
        return None

    def setfield(self, I, s, v, i, fn):
        return None

    def length(self, I, s, v):
        return None

    def as_seq(self, I, s, v):
        return None

    def discr(self, I, s, v, ty):
        return None

    def arith(self, I, s, op, a, b):
        return None

    def compare(self, I, s, op, a, b):
        return None

    def truncate(self, I, s, v, t):
        return None

    def ptrcast(self, I, s, v, fty, tty):
        return None

    def transmute(self, I, s, v, fty, tty):
        return None

    lend = False         # snapshots of byte strings remember the container they were taken from: ('snap', bytes, container)

    def extend(self, I, s, v):
        """a reference whose lifetime is changed"""
        if self.lend and v[0] == 'ref':
            x, whole = I.deref(s, v), container(I, s, v)
            if whole is not None and isinstance(x, tuple) and x[0] == 'seq':
                return ('snap', x, whole)
        return v

    def switch(self, I, s, v, arms, other, ty):
        return None

    def on_assert(self, I, s, body, blk, t, f):
        return None

    def opaque_const(self, I, s, ty, c):
        return None

    def element(self, I, s, v, idx):
        return None

    def index(self, I, s, p, idx, opt):
        return None

    def seq_end(self, I, s, p, last):
        return None

    def on_bound(self, I, s, f, what):
        pass

    def binary_search(self, I, s, p, how):
        return None

    def make_iter(self, I, s, p):
        return None

    def iter_next(self, I, s, p, it, back):
        return None

    def run_next(self, I, s, p, segs):
        return None

    def drain_iter(self, I, s, ty, v):
        return None

    def checked(self, I, s, op, a, b):
        return None

    def prefix_bytes(self, I, s, a, b):
        return None

    def cmp_bytes(self, I, s, a, b):
        return None

    def eq_bytes(self, I, s, a, b):
        return None

    def drop_opaque(self, I, s, v, ty):
        pass

    def castlen(self, I, s, p):
        return None

    def castview(self, I, s, v, p):
        raise Undecided('cast view')

    def castwrite(self, I, s, old, p, fn):
        raise Undecided('cast write')


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[2]]
    return []


# ------------------------------------------------------------------ bits
def bvnorm(b):
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    while b and b[-1] == 0:
        b = b[:-1]
    return ('bv', tuple(b))


def bitop(op, p, q):
    if isinstance(q, int) and not isinstance(p, int):
        p, q = q, p
    if isinstance(p, int) and isinstance(q, int):
        return {'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q}[op]
    if isinstance(p, int):
        if op == 'BitAnd':
            return q if p else 0
        if op == 'BitOr':
            return 1 if p else q
        return q if p == 0 else None
    if p == q:
        return {'BitAnd': p, 'BitOr': p, 'BitXor': 0}[op]
    return None


def bv_to_lin(b, facts):
    """the atom whose bits these are, when the listed bits cover its whole range"""
    if not b:
        return 0
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    f = b[0]
    if not (isinstance(f, tuple) and f[0] == 'b' and f[2] == 0):
        return None
    for i, x in enumerate(b):
        if x != ('b', f[1], i):
            return None
    lo, hi = facts.bounds(f[1])
    if lo is None or lo < 0 or hi is None or hi >> len(b):
        return None
    return L.atom(f[1])


def bv_shr(b):
    """(atom, k) when b is the atom shifted right by k"""
    if not b or not isinstance(b[0], tuple) or b[0][0] != 'b':
        return None
    a, k = b[0][1], b[0][2]
    for i, x in enumerate(b):
        if x != ('b', a, k + i):
            return None
    return (a, k)


def _freeze(o):
    if isinstance(o, dict):
        return ('D',) + tuple((k, _freeze(v)) for k, v in o.items())
    if isinstance(o, list):
        return ('A',) + tuple(_freeze(x) for x in o)
    return o


def _thaw(o):
    if isinstance(o, tuple) and o and o[0] == 'D':
        return {k: _thaw(v) for k, v in o[1:]}
    if isinstance(o, tuple) and o and o[0] == 'A':
        return [_thaw(x) for x in o[1:]]
    return o
