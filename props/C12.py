"""C12: the failure of a component surfaces from the call in progress."""
import time
from engine import run, wfile as W, roundtrip as R, faultrun as F, merging as M, sorting as S, iodom, grenad as G
from engine.core import *
from engine.prog import Prog

RULE = ('abstract interpretation of every public operation in which each single call of a component (sink write and flush, source read '
        'and seek, chunk read, write, seek and flush, chunk creation, merge function) forks into success and failure of any kind: the '
        'call in progress must return the error carrying that failure in the right variant; on the path where nothing fails it succeeds')
TECH = 'abstract interpretation of MIR (fault forking at every component call, error-value tracking)'
NOTE = 'scenarios are representative files and scripts; the fault point, one per run, is exhaustive over their component calls; codecs are no component'
MB = 1 << 20


def fwd(n):
    return ('next',) * (n + 1), list(range(n)) + [None], 'forward'


def bwd(n):
    return ('prev',) * (n + 1), list(range(n - 1, -1, -1)) + [None], 'backward'


def mixed(n):
    if n < 3:
        return ('last', 'first'), [n - 1, 0] if n else [None, None], 'ends'
    return (('last', 'first', ('ge', 5), 'next', ('le', 15), ('eq', 10 * (n - 1)), 'prev', ('eq', 10 * (n - 2)), ('ge', 10 * n), ('le', -5), ('eq', 5)),
            [n - 1, 0, 1, 2, 1, n - 1, n - 2, n - 2, None, None, None], 'mixed operations')


def seqs(n):
    return [fwd(n), bwd(n), mixed(n)]


def jobs(tier, mode):
    deep = tier == 'thorough'
    for end in ('into_inner', 'finish'):
        for i, w in enumerate(R.WRITES):
            for codec in W.CODECS if deep else ('None',) + ((W.CODECS[1 + i % (len(W.CODECS) - 1)],) if i in (3, 7, 9) else ()):
                if mode == 'faults' or end == 'into_inner' and (deep or w[0] <= 6):
                    yield 'writer', end, w, codec
    for codec in W.CODECS:
        for j, sh in enumerate(R.SHAPES):
            if codec == 'None' or deep or j in (3, 8, 10):
                for q in range(3):
                    yield 'reader', sh, codec, 2, q
    yield 'reader', R.SHAPES[6][:1] + (0,) + R.SHAPES[6][2:], 'Zlib', 1, 0
    for codec in ('None', 'Lz4', 'Snappy') if not deep else W.CODECS:
        for lv in (0, 1, 2):
            for i in range(len(F.iterator_jobs()[1])):
                if codec == 'None' or (i + lv) % 3 == 0:
                    yield 'iter', codec, lv, i


def one(P, SS, rd, rep, j, mode, budget=1):
    f = F.Run(P, mode, budget)
    s = State()
    und = None
    I = None
    try:
        if j[0] == 'writer':
            _, end, (n, kl, vl, levels, interval, bs), codec = j
            I = Interp(P, R.RDom(n, **f.kw()), overflow='report', max_steps=10 ** 8)
            ents = R.entries(s, n, kl, vl)
            what = 'writing %d entries (keys %s, values %s bytes, %d index levels, interval %s, block size %s, codec %s), %s' % (
                n, '/'.join(map(str, kl)), '/'.join(map(str, vl)), levels, interval, bs, codec, end)
            f.writer(SS, I, s, ents, levels, codec, interval, bs, end, what)
        elif j[0] == 'reader':
            _, (n, levels, interval, cuts), codec, ver, q = j
            I = Interp(P, R.RDom(n, probe=0, **f.kw()), overflow='report', max_steps=10 ** 8)
            ents = R.entries(s, n)
            q = seqs(n)[q]
            what = '%s over %s%s' % (q[2], R.shape_name(n, levels, interval, cuts, codec), '' if ver == 2 else ' (version 1)')
            f.reader(rd, I, s, R.spec_file(s, ents, levels, interval, codec, cuts, ver), ents, [q], what)
        elif j[0] == 'iter':
            _, codec, lv, i = j
            keys, its = F.iterator_jobs()
            kind, arg, due, t = its[i]
            I = Interp(P, F.RealIterDom(0, **f.kw()), overflow='report', max_steps=10 ** 8)
            ents = [(F.raw(k), (('s', 'v%d' % m, 0, 100),)) for m, k in enumerate(keys)]
            for m in range(len(keys)):
                s.range(('len', 'v%d' % m), 100, 100)
            data = R.spec_file(s, ents, lv, 2, codec, {1: ['data'], 3: ['data'] + [2] * (lv > 1), 5: ['data']})
            what = '%s%s over a file of 7 entries in 4 blocks, %d index levels, codec %s' % ('reverse ' if kind[:3] == 'rev' else '', t, lv, codec)
            f.iterator(rd, I, s, data, ents, kind, arg, due, what)
    except Undecided as e:
        und = str(e)
    if I is not None:
        rep.absorb(I)
        und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    for k, t in f.bad:
        rep.violate(k, t)
    if not f.calm and not f.faulted and not f.bad:
        und = und or 'no path'
    rep.ob(what, 'violated' if f.bad else 'undecided' if und else 'holds', und or '%d failing paths, %d complete' % (f.faulted, f.calm))


FAILS = ('fault', 'iter-fails', 'stream-fails', 'insert-fails', 'output-fails', 'panic', 'error')


def merger_jobs():
    a, b = [0, 1, 3], [1, 2, 3]
    for lists in ([a, b], [[0], [0], [0]], [[], a], [[2], [1], [0]], [a, [], a]):
        for via in ('builder', 'new', 'extend'):
            for how in ('list', 'real'):
                for stream in (False, True):
                    for cow in ('owned', 'borrowed'):
                        if how == 'list' or via == 'builder':
                            yield 'merger', lists, via, how, stream, cow


def merger(P, mg, rep, j, kw):
    _, lists, via, how, stream, cow = j
    s = State()
    I = Interp(P, M.MergeDom(P, 5, cow, **kw), overflow='report', max_steps=10 ** 8)
    ls = [[((('s', 'k%d' % k, 0, 12),), M.sym('v%d.%d' % (i, k))) for k in l] for i, l in enumerate(lists)]
    for k in range(5):
        s.range(('len', 'k%d' % k), 12, 12)
    for i, l in enumerate(lists):
        for k in l:
            s.range(('len', 'v%d.%d' % (i, k)), 10, 100)
    what = 'merging %s (%s sources, %s, %s, merge results %s)' % (lists, how, via, 'streamed' if stream else 'iterated', cow)
    und, bad = None, []
    try:
        if 'partial' in kw:
            I.dom.partial = False
            if mg.check(I, s.copy(), ls, what, stream, via, how):
                raise Undecided('the undisturbed run')
            I.dom.partial = True
            for i in range(len(lists)):
                s.gset(('budget', i), 1)
        bad = mg.check(I, s, ls, what, stream, via, how)
    except Undecided as e:
        und = str(e)
    except M.Bad as e:
        bad = [(e.kind, '%s (%s)' % (e.text, what))]
    rep.absorb(I)
    bad = [b for b in bad if 'partial' in kw or b[0] in FAILS]
    for k, t in bad:
        rep.violate('merger ' + k, t)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    rep.ob(what, 'violated' if bad else 'undecided' if und else 'holds', und or '')


def sorter_jobs(tier, mode):
    small = ((1, 12), (0, 12), (1, 12))
    big = ((1, 6 * MB), (0, 6 * MB), (1, 6 * MB), (2, 12))
    huge = tuple((i % 3, 12 * MB) for i in range(5))
    for real in (False, True):
        for re in (True, False):
            for m in (1, 2, 25):
                for route in ('iter', 'stream', 'cursors'):
                    for par in (False, True):
                        for k, script in enumerate(((), ((0, 12),), small, big, huge)):
                            if real and (par or (k + m + len(route)) % 2 and tier == 'quick'):
                                continue
                            for only in range(1 + min(len(script), 3)) if mode == 'partial' else (None,):
                                if mode == 'partial' and (par or real and tier == 'quick' and (k + m + len(route) + re + 3 * only) % 6):
                                    continue
                                yield 'sorter', re, m, route, par, script, real, only


def sorter(P, sg, rep, j, kw):
    _, re, m, route, par, script, real, only = j
    cfg = S.Cfg(re, m, 'Stable', par)
    s = State()
    I = Interp(P, S.SortDom(P, 3, real=real, **kw), overflow='report', max_steps=10 ** 8)
    I.deadline = time.time() + 200
    I.dom.only = only
    sg.width = 64 if only is None else 1000
    what = 'a sorter (%s) given %s, %s, %s' % (cfg.show(), ', '.join('k%d:%d' % x for x in script) or 'nothing', route, ('real chunk files' if real else 'summarised chunk files') + ('' if only is None else ', chunk %d disturbed' % only))
    und, bad = None, []
    try:
        if 'partial' in kw:
            I.dom.partial = False
            if sg.run(I, s.copy(), cfg, script, route, what):
                raise Undecided('the undisturbed run')
            I.dom.partial = True
        bad = sg.run(I, s, cfg, script, route, what)
    except Undecided as e:
        und = str(e)
    except M.Bad as e:
        bad = [(e.kind, '%s (%s)' % (e.text, what))]
    rep.absorb(I)
    bad = [b for b in bad if 'partial' in kw or b[0] in FAILS]
    for k, t in bad:
        rep.violate('sorter ' + k, t)
    und = und or (str(list(I.undecided)[0]) if I.undecided else None)
    rep.ob(what, 'violated' if bad else 'undecided' if und else 'holds', und or '')


def everything(rep, tier, mode, budget=1):
    P = Prog(run.facts('all'))
    SS, rd, mg, sg = W.Setup(P), R.Reading(P), M.Merging(P), S.Sorting(P)
    kw = {'faults': True} if mode == 'faults' else {'partial': True}
    todo = list(sorter_jobs(tier, mode))[::-1] + list(merger_jobs()) + list(jobs(tier, mode))

    def do(rep, j):
        if j[0] == 'merger':
            merger(P, mg, rep, j, kw)
        elif j[0] == 'sorter':
            sorter(P, sg, rep, j, kw)
        else:
            one(P, SS, rd, rep, j, mode, budget)
    iodom.PIN[0] = True
    try:
        run.pmap(rep, do, todo)
    finally:
        iodom.PIN[0] = False


def check(rep, tier):
    everything(rep, tier, 'faults')


if __name__ == '__main__':
    raise SystemExit(run.main('C12', check, RULE))
