"""C18: no unsorted block is ever emitted; out-of-order inserts panic."""
from engine import run, wfile as W, writerprops as WP
from engine.core import *
from engine.prog import Prog


def check(rep, tier):
    S = W.Setup(Prog(run.facts('all')))
    top = 2 if tier == 'quick' else 3

    def one(rep, job):
        op, lv, kinds, arg, vl = job
        rk = W.ranks(lv)
        if op == 'insert':
            rk['key'] = arg
        elif arg == 'data':
            # every relation of the pending child's last key to its parent's
            rk['last key of data'] = rk['last key of index %d' % lv] - vl
        else:
            rk['last key of index %d' % arg] = rk['last key of index %d' % (arg - 1)] - vl
        I = Interp(S.P, W.KeyDom(rk), overflow='report')
        F = W.Found(I)
        try:
            if op == 'insert':
                W.order_insert(S, F, lv, kinds, arg, vl)
            else:
                W.order_finish(S, F, lv, kinds, arg)
        except Undecided as e:
            F.und.append(str(e))
        name = '%s %s: %s' % (op, arg, W.describe(lv, kinds, 'None'))
        WP.settle(rep, name, F, ('order',))
    jobs = []
    for lv in range(top + 1):
        for kinds in W.all_kinds(lv):
            names = ['data'] + ['index %d' % k for k in range(lv + 1)]
            rk = W.ranks(lv)
            for n, kd in zip(names, kinds):
                if kd != 'N':
                    continue
                r = rk['last key of ' + n]
                for rank in (r, r - 5):
                    for vl in W.VALUES:
                        jobs.append(('insert', lv, kinds, rank, vl))
            for k in ['data'] + list(range(1, lv + 1)):
                ci = 0 if k == 'data' else k + 1
                pi = lv + 1 if k == 'data' else k
                if kinds[ci] == 'N' and kinds[pi] == 'N':
                    for d in (0, 5):
                        jobs.append(('finish', lv, kinds, k, d))
    # ascending inserts never panic
    asc = [j for j in WP.jobs('quick')]

    def two(rep, job):
        F, name = WP.step(S, job)
        WP.settle(rep, 'ascending ' + name, F, ('panic',))
    run.pmap(rep, one, jobs)
    run.pmap(rep, two, asc)


RULE = ('abstract interpretation (debug assertions off) of Writer::insert and Writer::into_inner from every configuration of blocks '
        'under construction, with a new or pending key equal to or below the last key of the block it would be stored in: every '
        'outcome that stores the two next to each other is a violation, and ascending inserts never panic')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C18', check, RULE))
