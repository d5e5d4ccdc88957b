"""C09: what the writer emits is the version-2 format."""
from engine import iodom, roundtrip as R, grenad as G, run, wfile as W, writerprops as WP
from engine.core import *
from engine.prog import Prog

WANT = ('layout',)


def check(rep, tier):
    P = Prog(run.facts('all'))
    S = W.Setup(P)
    rd = R.Reading(P)

    def reading(rep, n, levels, interval, cuts, codec, pin, lens):
        s = State()
        I = Interp(P, R.RDom(n), overflow='report')
        ents = R.entries(s, n, *lens)
        name = R.shape_name(n, levels, interval, cuts, codec) + ('' if lens == ((10, 127), (10, 127)) else ' with keys of %s and values of %s bytes' % lens)
        out, good = [], False
        iodom.PIN[0] = pin
        try:
            good = rd.check(I, s, R.spec_file(s, ents, levels, interval, codec, cuts, 2), ents, codec, 2, name, out, seeks=pin)
        except Undecided as e:
            I.und(str(e))
        iodom.PIN[0] = False
        rep.absorb(I)
        for k, t in out:
            rep.violate('reading ' + k, 'a file in the version-2 format is misread: ' + t)
        rep.ob('reading ' + name, 'violated' if out else 'holds' if good else 'undecided', str(list(I.undecided)[:2]))

    def one(rep, job):
        if job[0] == 'reading':
            return reading(rep, *job[1:])
        F, name = WP.step(S, job)
        WP.settle(rep, name, F, WANT)
    jobs = [('reading', *sh, c, sh[0] > 1 and c != 'None', ((10, 127), (10, 127))) for sh in R.SHAPES for c in ('None', 'Snappy', 'Zlib', 'Lz4', 'Zstd', 'SnappyPre05')]
    jobs += [('reading', *sh, 'None', False, ([a, b], [b, a])) for sh in R.SHAPES if sh[0] > 2 for a, b in ((1, 300), (127, 128), (16383, 16384), (2097151, 2097152))]
    run.pmap(rep, one, jobs + list(WP.jobs(tier)) + list(WP.codec_jobs()) + WP.deep(S))


RULE = ('abstract interpretation of WriterBuilder::build, Writer::insert and Writer::into_inner from every configuration of '
        'blocks under construction (opaque payloads, keys and offset tables of any size, symbolic block size, interval and '
        'position); emitted bytes and blocks left must be those of an independent description of the version-2 format; the reader is run over files that description '
        'produces and must give back the entries')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C09', check, RULE))
