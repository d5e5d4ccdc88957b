"""C10: version-1 files."""
import time
from engine import grenad as G, run, wfile as W, roundtrip as R, openfile, readercur
from engine.core import *
from engine.prog import Prog


def opening(rep, P):
    """every field of the version-1 trailer reaches the Reader"""
    new = G.fn(P, 'reader::Reader::new', True)
    for codec in range(6):
        for n in (21, 22, None):
            I, dom, outs, segs, exp = openfile.run(P, rep, new, n, 1, codec)
            rep.absorb(I)
            name = 'version-1 trailer with codec id %d, %s bytes' % (codec, n or 'any number of further')
            bad = None
            for s, kd, v in outs:
                if not G.feasible(s):
                    continue
                if kd == 'panic':
                    bad = 'Reader::new panics: %s' % v
                elif v[1] != 0:
                    bad = 'Reader::new refuses the file'
                else:
                    w = openfile.check_fields(P, I, s, v[2][0], segs, 1)
                    if w:
                        bad = 'the opened file reports a wrong %s' % w
            if bad:
                rep.violate('open-v1 %s' % (bad.split(':')[0]), '%s on a file with a %s' % (bad, name))
            rep.ob(name, 'violated' if bad else 'undecided' if I.undecided or not outs else 'holds', str(list(I.undecided)[:2]))


def check(rep, tier):
    P = Prog(run.facts('all'))
    for m in readercur.OPS.values():
        if m != 'clone':
            G.fn(P, 'ReaderCursor::' + m, True)
    opening(rep, P)
    rd = R.Reading(P)

    def one(rep, job):
        if job[0] == 'explore':
            e, conf, unconf = readercur.explore(P, 0, time.time() + 200, props=('C02', 'C03'), version=1)
            e2, conf2, unconf2 = readercur.explore(P, 0, time.time() + 200, props=('C02', 'C03'), version=2)
            rep.absorb(e.I)
            mine = [k for k in conf if k not in conf2]
            for k in mine:
                rep.violate(k[1], 'on a version-1 file: ' + conf[k])
            und = sorted(e.I.undecided) + sorted(unconf)
            rep.ob('cursor over version-1 metadata: %d states, all operations' % e.stats[0],
                   'violated' if mine else 'undecided' if und else 'holds', str(und[:2]))
            return
        n, levels, interval, cuts, codec = job
        res = []
        for ver in (1, 2):
            s = State()
            I = Interp(P, R.RDom(n), overflow='report')
            ents = R.entries(s, n)
            data = R.spec_file(s, ents, 0, interval, codec, cuts, ver)
            name = R.shape_name(n, 0, interval, cuts, codec) + ' (version 1)'
            out = []
            try:
                good = rd.check(I, s, data, ents, codec, ver, name, out, seeks=True)
            except Undecided as e:
                good = False
                I.und(str(e))
            rep.absorb(I)
            res.append((good, out, I))
        v1, v2 = res
        keys2 = set(k for k, _ in v2[1])
        bad = [x for x in v1[1] if x[0] not in keys2]
        for k, t in bad:
            rep.violate('v1 ' + k, t)
        rep.ob(name, 'violated' if bad else 'holds' if v1[0] else 'undecided', str(list(v1[2].undecided)[:2]))
    jobs = [('explore',)]
    for n, lv, iv, cuts in R.SHAPES:
        if lv == 0:
            for c in W.CODECS:
                jobs.append((n, 0, iv, cuts, c))
    run.pmap(rep, one, jobs)


RULE = ('abstract interpretation of Reader::new over every version-1 trailer (symbolic fields, every codec id) and of the cursor over '
        'a version-1 file: exhaustive exploration of cursor operations over single-level trees, and scans and seeks over files '
        'built by an independent encoder with opaque keys and values; anything the version-2 file answers differently is a violation')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C10', check, RULE))
