"""C05: prefix iterators."""
import time
from engine import run, iters, grenad as G
from engine.prog import Prog
from props.C04 import settle

RULE = ('fixpoint over the states of PrefixIter and RevPrefixIter, built through Reader::into_(rev_)prefix_iter, over every sorted file and '
        'every placement of the interval [P, P+) of the keys starting with the prefix P; P is empty, all 0xFF, or any bytes followed by a '
        'byte below 0xFF and a run of 0xFF; each next() up to the first None must return the next entry starting with P')
TECH = 'abstract interpretation of MIR (ordered-entry domain with probes and structured byte strings, fixpoint over iterator states)'
NOTE = ('runs of 0xFF up to 3 bytes (quick) or 9 (thorough); the cursor below the iterators is taken at its contract (C02, C03); what '
        'current() returns after a None result is treated as any entry or none')


def check(rep, tier):
    P = Prog(run.facts('all'))
    end = time.time() + (300 if tier == 'quick' else 700)
    for n in ('Reader::into_prefix_iter', 'Reader::into_rev_prefix_iter', 'PrefixIter::next', 'RevPrefixIter::next'):
        G.fn(P, n, True)
    top = 3 if tier == 'quick' else 9
    shapes = [('ff', n) for n in range(top + 1)] + [('mid', lead, n) for lead in (False, True) for n in range(top + 1)]

    def one(rep, j):
        x, nxt = iters.prefix_job(P, j[0], j[1], end)
        settle(rep, '%s, %s' % ('reverse' if j[1] else 'forward', x.what), x, nxt, 'RevPrefixIter' if j[1] else 'PrefixIter')
    run.pmap(rep, one, [(s, r) for s in shapes for r in (False, True)])


if __name__ == '__main__':
    raise SystemExit(run.main('C05', check, RULE))
