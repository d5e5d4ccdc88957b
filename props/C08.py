"""C08: what a sorter holds in memory and in chunks stays bounded however much is inserted."""
import time
from engine import run, sorting as S, spills as SP
from engine.core import *
from engine.prog import Prog

RULE = ('abstract run of Sorter::insert with exact entry sizes (contents opaque) over size patterns of at most a quarter of the budget, '
        'budgets, growing and fixed buffers and chunk limits: after every insert the entries not yet written to a chunk amount to at most '
        'twice the effective budget (the budget with a fixed buffer); the chunks alive, also during a chunk merge and while the output is '
        'prepared, number at most the configured maximum plus two; data leaves the buffer only into chunks the chunk creator made')
TECH = 'abstract interpretation of MIR (exact sizes, opaque contents, chunk objects tracked from creation to drop)'
NOTE = ('size sequences are families (constant, ramps, alternations) followed for several spills, the period of the buffer, not all '
        'sequences; the writer and the reader of a chunk are taken at their contract')
MB = 1 << 20
LEAST = 10 * MB
FOREVER = 5000


def sizes(T, kind):
    q = T // 4
    g = {'T/4': lambda i: q, 'T/5': lambda i: T // 5, 'T/7': lambda i: T // 7, 'T/4-1': lambda i: q - 1,
         'T/3 at most T/4': lambda i: min(q, T // 3 - 16), 'T/16': lambda i: T // 16, 'T/40': lambda i: T // 40,
         'large and small': lambda i: q if i % 2 else 12, 'small then large': lambda i: 12 if i % 9 < 6 else q,
         'ramp': lambda i: 12 + (q - 12) * (i % 8) // 7, 'falling': lambda i: q - (q - 12) * (i % 5) // 4,
         'T/8 and T/4': lambda i: q if i % 3 == 0 else T // 8}[kind]
    return (g(i) for i in range(FOREVER))


KINDS = ('T/4', 'T/5', 'T/7', 'T/4-1', 'T/16', 'T/40', 'large and small', 'small then large', 'ramp', 'falling', 'T/8 and T/4')
BUDGETS = (0, 10 * MB + 5, 16 * MB, 33 * MB + 1, 100 * MB)


def jobs(tier):
    deep = tier == 'thorough'
    for re in (True, False):
        for t in BUDGETS + ((257 * MB, 1024 * MB) if deep else ()):
            for k in KINDS:
                yield 'volume', re, t, 4 if not deep else 9, k, None
        for m in (0, 1, 2, 3, 4, 7, 25):
            for r in ('iter', 'stream', 'cursors') if m < 25 else ('iter',):
                for k in ('T/4', 'large and small'):
                    n = 3 * max(m, 1) + 4
                    for extra in (0, 1) if m < 25 else (0,):
                        yield 'chunks', re, 16 * MB, n + extra, k, (m, r)


def one(P, rep, j):
    kind, re, t, spills, pat, mr = j
    T = max(t, LEAST)
    cfg = S.Cfg(re, mr[0] if mr else 3, threshold=t)
    maxc = max(1, mr[0] if mr else 3) + 2
    sp = SP.Spills(P)
    s, I = sp.fresh()
    I.deadline = time.time() + 240
    name = '%s: %s, budget %d, %s%s' % (kind, 'growing' if re else 'fixed', T, pat, ', max_nb_chunks %d, %s' % mr if mr else '')
    try:
        bad, f = sp.simulate(I, s, cfg, sizes(T, pat), spills, 2 * T if re else T, maxc, mr[1] if mr else 'iter')
    finally:
        rep.absorb(I)
    for k, text in bad:
        rep.violate({'volume': 'Sorter::insert: unspilled data exceeds its bound', 'chunks': 'Sorter: too many chunks alive',
                     'creator': 'Sorter::insert: a spill without the chunk creator'}[k], text)
    rep.ob(name, 'violated' if bad else 'undecided' if f['dropped'] or I.undecided else 'holds', '%d inserts, %d spills, peak %d of %d, %d chunks of %d%s' % (
        f['inserts'], f['spills'], f['peak'], 2 * T if re else T, f['chunks'], maxc, ', %d paths left out' % f['dropped'] if f['dropped'] else ''))


def check(rep, tier):
    P = Prog(run.facts('all'))
    SP.Spills(P)
    run.pmap(rep, lambda r, j: one(P, r, j), sorted(jobs(tier), key=lambda j: -(j[5][0] if j[5] else 0)))


if __name__ == '__main__':
    raise SystemExit(run.main('C08', check, RULE))
