"""C15: blocks are cut exactly when their size reaches the configured block size."""
from engine import run, wfile as W, writerprops as WP
from engine.core import *
from engine.prog import Prog

WANT = ('cut',)


def check(rep, tier):
    S = W.Setup(Prog(run.facts('all')))

    def one(rep, job):
        F, name = WP.step(S, job)
        WP.settle(rep, name, F, WANT)
    jobs = [j for j in WP.jobs(tier) if j[0] == 'insert']
    jobs += [('insert', lv, k, 'None', vl, 2, 'any') for lv in (0, 1, 2) for k in W.all_kinds(lv) for vl in W.VALUES + (600, 2000000)]
    jobs += [j for j in WP.codec_jobs() if j[0] == 'insert']
    run.pmap(rep, one, jobs)


RULE = ('abstract interpretation of WriterBuilder and Writer::insert from every configuration of blocks under construction that '
        'are below the block size, with symbolic payload sizes, block size and interval: the data block, and every index block two '
        'or more levels below the root, is emitted by an insert exactly when its uncompressed size has reached max(1024, block size)')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C15', check, RULE))
