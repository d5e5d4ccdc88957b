"""C07: the sorter's output is the sorted merge of everything inserted, whatever the configuration."""
import itertools
from engine import grenad as G, run, merging as M, sorting as S
from engine.core import *
from engine.prog import Prog

MB = 1 << 20
SMALL = 12
CAP = 10 * MB       # smallest effective budget
KINDS = ('iter', 'stream', 'cursors')


def big(cfg):
    """a value of which one fits in memory and a second one does not"""
    return 12 * MB if cfg.realloc else 6 * MB


def patterns(n):
    """every way n inserts can repeat and order their keys, up to renaming"""
    out = set()
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            out.add(t)
    return sorted(out)


def scripts(cfg, n):
    b = big(cfg)
    for t in patterns(n):
        for m in range(1 << n):
            yield tuple((r, b if m >> i & 1 else SMALL) for i, r in enumerate(t))


def specials(cfg):
    b = big(cfg)
    full = CAP if not cfg.realloc else 131072
    out = [(), ((0, 0),), ((0, SMALL),), ((0, 0), (0, 0), (1, 0)),
           tuple((i % 3, b) for i in range(9)), tuple((2 - i % 3, b if i % 2 else SMALL) for i in range(9)),
           ((0, b),) * 6, tuple((i, SMALL) for i in (6, 2, 5, 2, 0, 1, 6, 3, 4, 0)), ((0, 30 * MB), (1, SMALL), (0, SMALL)),
           ((1, SMALL), (0, 30 * MB), (1, SMALL), (0, 50 * MB), (0, SMALL))]
    # fill the buffer to the last bytes
    for d in (-17, -16, -15, -1, 0, 1, 15, 16, 17, 40):
        n = full - 28 + d
        out += [((1, n), (0, SMALL), (1, SMALL)), ((1, SMALL), (0, n - 40), (1, SMALL))]
    return out


def describe(cfg, script):
    sz = lambda n: 'small' if n == SMALL else 'empty' if n == 0 else 'large' if n == big(cfg) else '%d bytes' % n
    return 'a sorter (%s) given %s' % (cfg.show(), ', '.join('k%d:%s' % (r, sz(n)) for r, n in script) or 'nothing')


def scenario(P, sg, rep, jobs, want=None, **kw):
    bad, undec, n = {}, {}, 0
    for cfg, script, route in jobs:
        s = State()
        I = Interp(P, S.SortDom(P, 1 + max([r for r, _ in script], default=0), **kw), overflow='report')
        what = describe(cfg, script)
        try:
            res = sg.run(I, s, cfg, script, route, what)
        except Undecided as e:
            res = []
            I.und(str(e))
        except M.Bad as e:
            res = [(e.kind, '%s (%s)' % (e.text, what))]
        rep.absorb(I)
        n += 1
        for k, t in res:
            if want is None or k in want:
                bad.setdefault(k, t)
        if I.undecided and not res:
            undec[str(list(I.undecided)[0])[:120]] = what
    return bad, undec, n


def configs(rayon=True):
    for algo, par in (('Stable', False), ('Unstable', False)) + ((('Stable', True), ('Unstable', True)) if rayon else ()):
        for realloc in (True, False):
            for chunks in (1, 2, 25):
                yield S.Cfg(realloc, chunks, algo, par)


def check(rep, tier):
    P = Prog(run.facts('all'))
    PD = Prog(run.facts('default'))
    sgs = {'all': (P, S.Sorting(P)), 'default': (PD, S.Sorting(PD, 'default'))}
    groups = []

    def add(name, jobs, feat='all', size=150, **kw):
        jobs = list(jobs)
        for i in range(0, len(jobs), size):
            groups.append((name, feat, jobs[i:i + size], kw))
    for cfg in configs():
        add('every pattern of up to 3 inserts, every output', ((cfg, sc, k) for n in (1, 2, 3) for sc in scripts(cfg, n) for k in KINDS))
        add('special sizes', ((cfg, sc, KINDS[(i + j) % 3]) for i, sc in enumerate(specials(cfg)) for j in range(1 if tier == 'quick' else 3)), size=40)
    for i, cfg in enumerate(c for c in configs() if not c.parallel and c.algo == 'Stable'):
        add('every pattern of 4 inserts', ((cfg, sc, KINDS[(i + j) % 3]) for j, sc in enumerate(scripts(cfg, 4))
                                           if tier != 'quick' or j % 2 == i % 2))
    for cfg in configs(False):
        add('the default features', ((cfg, sc, KINDS[j % 3]) for j, sc in enumerate(scripts(cfg, 3)) if j % 2 == 0), 'default')
    # the real writer and reader underneath
    for j, setters in enumerate(settings(P)):
        cfg = S.Cfg(j % 2 == 0, (1, 2, 25)[j % 3], setters=setters)
        add('real files as chunks', ((cfg, sc, KINDS[(i + j) % 3]) for i, sc in enumerate(real_scripts())), size=30, real=True, pin=True)

    def one(rep, g):
        name, feat, jobs, kw = g
        p, sg = sgs[feat]
        bad, undec, n = scenario(p, sg, rep, jobs, **{k: v for k, v in kw.items() if k != 'pin'})
        for k, t in bad.items():
            rep.violate(k, t)
        rep.ob('%s, %s features: %d scenarios from %s' % (name, feat, n, describe(*jobs[0][:2])),
               'violated' if bad else 'undecided' if undec else 'holds', str(list(undec.items())[:2]))
    from engine import iodom
    iodom.PIN[0] = True
    try:
        run.pmap(rep, one, groups)
    finally:
        iodom.PIN[0] = False


def settings(P):
    ct = lambda n: ('compression_type', ('adt', G.variant_index(P, 'CompressionType', n), ()))
    lv = lambda n: ('compression_level', n)
    out = [()]
    for c in ('None', 'SnappyPre05', 'Zlib', 'Lz4', 'Zstd', 'Snappy'):
        out.append((('chunk_compression_type', ct(c)[1]),))
    out += [(('chunk_compression_level', 9), ('chunk_compression_type', ct('Zlib')[1])), (('index_levels', 2),), (('index_key_interval', 1),),
            (('block_size', 1024), ('index_levels', 1)), (('block_size', 1 << 20),)]
    return out


def real_scripts():
    return [(), ((0, SMALL),), ((1, SMALL), (0, SMALL), (1, SMALL)), ((1, 6 * MB), (0, 6 * MB), (1, 6 * MB)),
            ((0, 12 * MB), (1, 12 * MB), (0, SMALL), (2, 12 * MB)), ((2, 2000), (1, 2000), (0, 2000), (2, 2000))]


RULE = ('abstract interpretation of SorterBuilder, Sorter, Entries, Merger and MergerIter (and of the writer and reader beneath, for some '
        'scenarios) over every pattern of a few inserted keys, each entry small or spilling, in every configuration; the buffer is '
        'interpreted byte for byte as a raw allocation, keys and values are opaque strings; sorting is abstracted by its contract, with ties '
        'explored in every order when unstable; the merge function concatenates; each output is compared with the specification')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C07', check, RULE))
