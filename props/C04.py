"""C04: range iterators."""
import time
from engine import run, iters
from engine.prog import Prog

RULE = ('fixpoint over the states of RangeIter and RevRangeIter, built through Reader::into_(rev_)range_iter, over every sorted file and '
        'every placement of the two bounds (nine combinations of unbounded/inclusive/exclusive; equal and inverted bounds included): each '
        'next() up to the first None must return the next entry within the bounds')
TECH = 'abstract interpretation of MIR (ordered-entry domain with probes, fixpoint over iterator states)'
NOTE = 'the cursor below the iterators is taken at its contract (C02, C03); what a cursor does after a None result is treated as unknown'


def settle(rep, name, x, nxt, where):
    try:
        x.run(nxt)
    except iters.Undecided as e:
        x.und.append(str(e))
    rep.absorb(x.I)
    for k, t in sorted(x.viol.items()):
        rep.violate('%s: %s' % (where, k), t)
    rep.cov[name] = '%d states' % x.states
    und = x.und
    rep.ob(name, 'violated' if x.viol else 'undecided' if und else 'holds' if x.states else 'undecided', str(und[:2]) if und else '')


def check(rep, tier):
    P = Prog(run.facts('all'))
    end = time.time() + (300 if tier == 'quick' else 700)
    jobs = [(lo, hi, rev) for rev in (False, True) for lo in iters.KINDS for hi in iters.KINDS]
    from engine import grenad as G
    for n in ('Reader::into_range_iter', 'Reader::into_rev_range_iter', 'RangeIter::next', 'RevRangeIter::next'):
        G.fn(P, n, True)

    def one(rep, j):
        x, nxt = iters.range_job(P, j[0], j[1], j[2], end)
        settle(rep, x.what, x, nxt, 'RevRangeIter' if j[2] else 'RangeIter')
    run.pmap(rep, one, jobs)


if __name__ == '__main__':
    raise SystemExit(run.main('C04', check, RULE))
