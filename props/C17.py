"""C17: no access outside live memory, no stray free, no leak, no overflowing size, whatever the entry sizes."""
import time
from engine import run, wfile as W, roundtrip as R, faultrun as F, merging as M, sorting as S, spills as SP, iodom, witnesses, grenad as G, lin as L
from engine.core import *
from engine.prog import Prog
import props.C07 as C07
import props.C12 as C12

RULE = ('abstract interpretation of the sorter over its raw buffer with symbolic entry sizes and budgets: every slice made from a raw '
        'pointer lies in its allocation, every free matches the layout of its allocation, nothing is freed twice, used after or leaked, '
        'typed views are aligned, no size or offset overflows, bounds are never read back from bytes of entries; one step of insert from '
        'an arbitrary fill level; every read path: the bytes behind a returned key or value still are where they were borrowed; programs '
        'keeping a returned entry across the next call are rejected by the type checker')
TECH = 'abstract interpretation of MIR with a raw-memory domain (symbolic sizes, linear facts); compile-fail witnesses for lifetimes'
NOTE = ('sequences of up to 3 (4 in thorough) inserts with every combination of sizes, plus one step from every fill level of given '
        'buffer sizes; read paths over representative files; memory of std containers is trusted')
U32 = (1 << 32) - 1
MB = 1 << 20


def memory_jobs(tier):
    deep = tier == 'thorough'
    algos = (('Stable', False), ('Unstable', False), ('Stable', True), ('Unstable', True))
    for re in (True, False):
        for algo, par in algos:
            for end in ('cursors', 'iter', 'stream', 'drop'):
                if end in ('cursors', 'drop') or algo == 'Stable' and not par:
                    yield 'sizes', re, algo, par, 1, U32, end, 0
                    yield 'sizes', re, algo, par, 2, 1 << 20 if re else 12 * MB, end, 0
                    if end == 'cursors' or not par:
                        yield 'sizes', re, algo, par, 3, 150000 if re else 4 * MB, end, 0
        yield 'sizes', re, 'Stable', False, 2, U32, 'cursors', 0
        yield 'sizes', re, 'Stable', False, 3, 1200000 if re else 8 * MB, 'drop', 0
        if re or deep:
            yield 'sizes', re, 'Stable', False, 4, 70000 if re else 3 * MB, 'drop', 0
        yield 'sizes', re, 'Stable', False, 2, 1 << 20, 'cursors', 'oom'
        if deep:
            yield 'sizes', re, 'Stable', False, 4, 1 << 20, 'cursors', 0
            yield 'sizes', re, 'Stable', False, 5, 70000 if re else 6 * MB, 'drop', 0
        for t in (10 * MB + 5, 10 * MB + 15, 12345678, 'any') + ((100 * MB + 1, 1 << 40) if deep else ()):
            yield 'sizes', re, 'Stable', False, 2, 1 << 24, 'cursors', t
    for re in (True, False):
        for k, cap in enumerate((131072, 262144, 10 * MB, 20 * MB) if re else (10 * MB, 10 * MB + 16, 64 * MB)):
            yield 'step', re, cap
    for re in (True, False):
        for i in range(len(C07.specials(S.Cfg(re, 2)))):
            for algo, par in algos:
                yield 'script', re, algo, par, i, ('cursors', 'iter', 'stream', 'drop')[i % 4]
    for re in (True, False):
        for n, size in ((700, 0), (900, 200), (1100, 131), (64, 2000), (40, 4096)) + (((3000, 60), (9000, 0)) if deep else ()):
            yield 'many', re, n, size


def sorter_type(P):
    b = G.fn(P, 'sorter::Sorter::insert', True)
    t = P.T[b['locals'][1][0]]
    return t.get('t')


def finish(P, sg, I, s, c, end):
    """[(state, kind, value)] after the sorter was consumed"""
    if end == 'drop':
        ty = sorter_type(P)
        out = I.drop_place(s, c, (), ty)
        for s1, k, v in out:
            s1.kill(c)
        return out
    v = s.mem[c]
    s.kill(c)
    if end == 'stream':
        return I.run_body(s, sg.stream, [v, ('ref', s.alloc(('obj', 'writer', 'w')), ())])
    return I.run_body(s, getattr(sg, end), [v])


def report(rep, I, what, bad):
    for t, notes in I.dom.found:
        bad.setdefault('Sorter: ' + t, '%s, in %s' % (t, what))
    for k, t in bad.items():
        rep.violate(k, t)


def sizes(P, sg, rep, j):
    _, re, algo, par, n, hi, end, thr = j
    cfg = S.Cfg(re, 2, algo, par)
    s = State()
    I = Interp(P, S.SortDom(P, n), overflow='report', max_steps=10 ** 8, max_out=20000)
    I.max_rec = 60
    I.deadline = time.time() + 200
    sg.width = 20000
    if thr == 'any':
        s.range('budget', 0, 1 << 62)
        cfg.threshold = L.atom('budget')
    elif thr and thr != 'oom':
        cfg.threshold = thr
    what = '%d inserts of any sizes up to %d into a sorter (%s, budget %s), then %s%s' % (
        n, hi, cfg.show(), thr if thr and thr != 'oom' else 'the minimum', end, ', allocations may fail' if thr == 'oom' else '')
    t0 = time.time()
    bad, und, paths = {}, None, 0
    try:
        st = build(P, sg, I, s, cfg, what, bad)
        I.dom.oom = thr == 'oom'
        for i in range(n):
            nxt = []
            for s1, c in st:
                k, v = 'k%d' % (n - 1 - i), 'v%d' % i
                s1.range(('len', k), 0 if n == 1 else 1, hi)
                s1.range(('len', v), 0, hi)
                for s2, kd, r in I.run_body(s1, sg.insert, [('ref', c, ()), ('snap', ('seq', (('s', k, 0, L.atom(('len', k))),))),
                                                            ('snap', ('seq', (('s', v, 0, L.atom(('len', v))),)))]):
                    if kd == 'ret':
                        nxt.append((s2, c))
                    elif G.stray(r) and G.feasible(s2):
                        bad.setdefault('Sorter::insert: %s' % str(r).split(' at ')[0], 'insert panics (%s) in %s [%s]' % (r, what, G.show_facts(s2)))
            st = nxt
            if len(st) > 20000:
                raise Undecided('too many cases')
        for s1, c in st:
            for s2, kd, r in finish(P, sg, I, s1, c, end):
                if kd != 'ret':
                    if G.stray(r) and G.feasible(s2):
                        bad.setdefault('Sorter output: %s' % str(r).split(' at ')[0], 'the output panics (%s) in %s [%s]' % (r, what, G.show_facts(s2)))
                    continue
                paths += 1
                if I.dom.leaks(s2, r) and G.feasible(s2):
                    bad.setdefault('Sorter: a buffer is leaked', 'a buffer is never freed in %s [%s]' % (what, G.show_facts(s2)))
    except Undecided as e:
        und = str(e)
    except M.Bad as e:
        und = e.text
    rep.absorb(I)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    report(rep, I, what, bad)
    rep.ob(what, 'violated' if bad or I.dom.found else 'undecided' if und or not paths else 'holds', (und or '%d paths' % paths) + ', %.0f s' % (time.time() - t0))


def build(P, sg, I, s, cfg, what, bad):
    try:
        return sg.build(I, s, cfg)
    except M.Bad as e:
        if G.stray(e.text) and 'build panics' in e.text:
            bad.setdefault('SorterBuilder::build: panics', '%s in %s' % (e.text, what))
        raise


def many(P, rep, j):
    """more and more entries of one size"""
    _, re, n, size = j
    cfg = S.Cfg(re, 2)
    sg = S.Sorting(P)
    s = State()
    I = Interp(P, S.SortDom(P, 4), overflow='report', max_steps=10 ** 9)
    I.deadline = time.time() + 250
    what = '%d inserts of %d bytes each into a sorter (%s), then dropped' % (n, size, cfg.show())
    bad, und = {}, None
    done = 0
    try:
        made = sg.build(I, s, cfg)
        if len(made) != 1:
            raise Undecided('%d ways to build the sorter' % len(made))
        (s, c), = made
        for i in range(n):
            k, v = 'k%d' % (i % 3), 'v%d' % i
            kl = min(size, 12)
            s.range(('len', k), kl, kl)
            s.range(('len', v), size - kl, size - kl)
            outs = [o for o in I.run_body(s, sg.insert, [('ref', c, ()), ('snap', ('seq', norm_segs((('s', k, 0, kl),)))), ('snap', ('seq', norm_segs((('s', v, 0, size - kl),))))])]
            for s2, kd, r in outs:
                if kd != 'ret' and G.stray(r) and G.feasible(s2):
                    bad.setdefault('Sorter::insert: %s' % str(r).split(' at ')[0], 'insert %d panics (%s) in %s' % (i + 1, r, what))
            outs = [o[0] for o in outs if o[1] == 'ret']
            if len(outs) != 1:
                raise Undecided('%d paths' % len(outs))
            s = outs[0]
            done += 1
        for s2, kd, r in finish(P, sg, I, s, c, 'drop'):
            if kd == 'ret' and I.dom.leaks(s2):
                bad.setdefault('Sorter: a buffer is leaked', 'a buffer is never freed in ' + what)
    except Undecided as e:
        und = '%s after %d' % (e, done)
    except M.Bad as e:
        und = e.text
    rep.absorb(I)
    report(rep, I, what, bad)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    rep.ob(what, 'violated' if bad or I.dom.found else 'undecided' if und else 'holds', und or '')


def script(P, sg, rep, j):
    _, re, algo, par, i, end = j
    cfg = S.Cfg(re, 2, algo, par)
    sc = C07.specials(cfg)[i]
    s = State()
    I = Interp(P, S.SortDom(P, 1 + max([r for r, _ in sc], default=0)), overflow='report', max_steps=10 ** 8)
    I.deadline = time.time() + 120
    what = C07.describe(cfg, sc) + ', then ' + end
    bad, und = {}, None
    try:
        st = sg.build(I, s, cfg)
        for n, (k, v) in enumerate(sg.entries(s, sc)):
            nxt = []
            for s1, c in st:
                for s2, kd, r in I.run_body(s1, sg.insert, [('ref', c, ()), ('snap', ('seq', k)), ('snap', ('seq', v))]):
                    if kd == 'ret':
                        nxt.append((s2, c))
                    elif G.stray(r) and G.feasible(s2):
                        bad.setdefault('Sorter::insert: %s' % str(r).split(' at ')[0], 'insert %d panics (%s) in %s' % (n + 1, r, what))
            st = nxt
        for s1, c in st:
            for s2, kd, r in finish(P, sg, I, s1, c, end):
                if kd != 'ret':
                    if G.stray(r) and G.feasible(s2):
                        bad.setdefault('Sorter output: %s' % str(r).split(' at ')[0], 'the output panics (%s) in %s' % (r, what))
                elif I.dom.leaks(s2, r) and G.feasible(s2):
                    bad.setdefault('Sorter: a buffer is leaked', 'a buffer is never freed in ' + what)
    except Undecided as e:
        und = str(e)
    except M.Bad as e:
        und = e.text
    rep.absorb(I)
    report(rep, I, what, bad)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    rep.ob(what, 'violated' if bad or I.dom.found else 'undecided' if und else 'holds', und or '')


def step(P, rep, j):
    """insert from an arbitrary fill level; it proves, it never accuses"""
    _, re, cap = j
    sp = SP.Spills(P)
    cfg = S.Cfg(re, 2)
    what = 'one insert of any size into a sorter (%s) whose buffer of %d bytes is filled to any level' % (cfg.show(), cap)
    und, n, good = None, 0, False
    try:
        sh = sp.shape(cfg)
        if sh is None:
            raise Undecided('the parts of the buffer are not recognised')
        for s1, I, ok_ in sp.step(cfg, sh, cap, U32, 1 << 62):
            if s1 is None:
                good = ok_ and not I.dom.found
                rep.absorb(I)
                if I.dom.found:
                    und = 'not proved: ' + I.dom.found[0][0]
            else:
                n += 1
    except Undecided as e:
        und = str(e)
    rep.ob(what, 'holds' if good and n else 'undecided', und or '%d paths' % n)


def read_jobs(tier):
    deep = tier == 'thorough'
    for codec in W.CODECS:
        for k, sh in enumerate(R.SHAPES):
            if codec == 'None' or deep or k in (3, 8, 10):
                for q in range(3):
                    yield 'reader', sh, codec, 2, q
    for codec in ('None', 'Lz4', 'Snappy') if not deep else W.CODECS:
        for lv in (0, 1, 2):
            for i in range(len(F.iterator_jobs()[1])):
                if codec == 'None' or (i + lv) % 3 == 0:
                    yield 'iter', codec, lv, i
    for i, w in enumerate(R.WRITES):
        yield 'writer', 'into_inner', w, W.CODECS[i % len(W.CODECS)]


def check(rep, tier):
    P = Prog(run.facts('all'))
    SS, rd, mg, sg = W.Setup(P), R.Reading(P), M.Merging(P), S.Sorting(P)
    todo = [('witness', w) for w in witnesses.names()] + list(memory_jobs(tier)) + \
        [j for j in C12.merger_jobs() if j[3] == 'real'] + list(read_jobs(tier))
    rank = {'many': 0, 'sizes': 1, 'step': 2, 'witness': 0}
    todo.sort(key=lambda j: (rank.get(j[0], 3), -j[2] if j[0] == 'many' else -j[4] if j[0] == 'sizes' else 0))

    def do(rep, j):
        k = j[0]
        if k == 'sizes':
            sizes(P, sg, rep, j)
        elif k == 'many':
            many(P, rep, j)
        elif k == 'script':
            script(P, sg, rep, j)
        elif k == 'step':
            step(P, rep, j)
        elif k == 'witness':
            witnesses.check(rep, j[1], lib)
        elif k == 'merger':
            merger(P, mg, rep, j)
        else:
            C12.one(P, SS, rd, rep, j, 'memory')
    lib = witnesses.library()
    iodom.PIN[0] = True
    S.SortDom.lend = M.MergeDom.lend = R.RDom.lend = True
    try:
        run.pmap(rep, do, todo)
    finally:
        iodom.PIN[0] = False
        S.SortDom.lend = M.MergeDom.lend = R.RDom.lend = False


def merger(P, mg, rep, j):
    _, lists, via, how, stream, cow = j
    s = State()
    I = Interp(P, M.MergeDom(P, 5, cow), overflow='report', max_steps=10 ** 8)
    ls = [[((('s', 'k%d' % k, 0, 12),), M.sym('v%d.%d' % (i, k))) for k in l] for i, l in enumerate(lists)]
    for k in range(5):
        s.range(('len', 'k%d' % k), 12, 12)
    for i, l in enumerate(lists):
        for k in l:
            s.range(('len', 'v%d.%d' % (i, k)), 10, 100)
    what = 'merging %s (%s, %s, merge results %s)' % (lists, via, 'streamed' if stream else 'iterated', cow)
    und, bad = None, []
    try:
        bad = mg.check(I, s, ls, what, stream, via, how)
    except Undecided as e:
        und = str(e)
    except M.Bad as e:
        und = e.text
    rep.absorb(I)
    bad = [(k, t) for k, t in bad if k == 'lent' or 'panics' in t and G.stray(t)]
    for k, t in bad:
        rep.violate('merger ' + k, t)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    rep.ob(what, 'violated' if bad else 'undecided' if und else 'holds', und or '')


if __name__ == '__main__':
    raise SystemExit(run.main('C17', check, RULE))
