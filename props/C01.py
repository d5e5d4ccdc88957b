"""C01: write/read round trip."""
import time
from engine import iodom, grenad as G, run, wfile as W, roundtrip as R, writerprops as WP, readercur, blockcur
from engine.core import *
from engine.prog import Prog


def forward(pos, op):
    return op == 'next' or op == 'first' and pos is None


def backward(pos, op):
    return op == 'prev' or op == 'last' and pos is None


def check(rep, tier):
    P = Prog(run.facts('all'))
    D = Prog(run.facts('default'))
    S, SD = W.Setup(P), W.Setup(D)
    rd, rdd = R.Reading(P), R.Reading(D)
    end = time.time() + (240 if tier == 'quick' else 600)
    depth = 3 if tier == 'quick' else 5

    def roundtrip(rep, job):
        which, codec, level, (n, kl, vl, levels, interval, bs) = job
        s = State()
        iodom.PIN[0] = n > 1
        ss, rr = (S, rd) if which == 'all' else (SD, rdd)
        I = Interp(ss.P, R.RDom(n), overflow='report')
        ents = R.entries(s, n, kl, vl)
        name = 'round trip of %d entries (keys %s, values %s bytes, %d index levels, interval %s, block size %s, codec %s%s, %s features)' % (
            n, '/'.join(map(str, kl)), '/'.join(map(str, vl)), levels, interval, bs, codec, '' if level is None else ' any level', which)
        out, good = [], True
        try:
            res = R.written(ss, I, s, ents, levels, codec, interval, bs, level)
            good = bool(res)
            for s1, data in res:
                if data and data[0] == 'fail':
                    if G.feasible(s1):
                        out.append(('write-fails', '%s in a %s' % (data[1], name)))
                    continue
                good = rr.check(I, s1, data, ents, codec, 2, name, out) and good
        except Undecided as e:
            I.und(str(e))
        iodom.PIN[0] = False
        rep.absorb(I)
        for k, t in out:
            rep.violate(k, t)
        rep.ob(name, 'violated' if out else 'holds' if good and not I.undecided else 'undecided', str(list(I.undecided)[:2]))

    def steps(rep, job):
        F, name = WP.step(S, job[1])
        WP.settle(rep, name, F, ('panic', 'error'))
        # where the layout is as specified the induction over the inserts is complete
        if any(b[0] == 'layout' for b in F.bad):
            rep.ob(name + ': layout', 'undecided', 'the emitted bytes are not those of the version-2 format')

    def scans(rep, job):
        _, lv, gate = job
        if lv == 'block':
            e = blockcur.Explorer(P, rep, '', end, gate=gate)
            e.run()
            used = e.outside(e.bodies)
            for k, x in e.viol.items():
                if x[2] in used:
                    rep.violate(k, x[0])
            rep.ob('block cursor %s scan over every block' % gate.__name__, 'violated' if e.viol else 'undecided' if e.I.undecided else 'holds')
            return
        e, conf, unconf = readercur.explore(P, lv, end, props=('C03',), gate=gate)
        rep.absorb(e.I)
        for k in conf:
            rep.violate(k[1], 'with %d index levels: %s' % (lv, conf[k]))
        rep.ob('%s scan over every tree of %d index levels' % (gate.__name__, lv), 'violated' if conf else
               'undecided' if unconf or e.I.undecided else 'holds', str(sorted(e.I.undecided)[:2]))

    def one(rep, job):
        {'rt': lambda: roundtrip(rep, job[1:]), 'step': lambda: steps(rep, job), 'scan': lambda: scans(rep, job)}[job[0]]()
    jobs = [('scan', lv, g) for lv in list(range(depth - 1, -1, -1)) + ['block'] for g in (forward, backward)]
    jobs += [('step', j) for j in WP.deep(S)]
    for w in R.WRITES:
        jobs.append(('rt', 'all', 'None', None, w))
    for c in W.CODECS[1:]:
        for w in R.WRITES[1:12:2]:
            jobs.append(('rt', 'all', c, True, w))
        jobs.append(('rt', 'all', c, None, R.WRITES[7]))
    for c in ('None', 'Snappy', 'SnappyPre05'):
        for w in R.WRITES[4:8]:
            jobs.append(('rt', 'default', c, True if c != 'None' else None, w))
    jobs += [('step', j) for j in list(WP.jobs(tier)) + list(WP.codec_jobs())]
    run.pmap(rep, one, jobs)


RULE = ('abstract interpretation of the writer and the reader: (1) the real writer and the real reader composed over files of opaque keys '
        'and values in representative shapes for every codec, scanned in both directions; (2) every insert and finish from every '
        'configuration of blocks under construction neither panics nor fails; (3) exhaustive exploration of forward and backward '
        'scans over every block and every index tree')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C01', check, RULE))
