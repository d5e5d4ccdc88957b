"""C16: I/O per operation is bounded by the index depth; opening reads only the trailer."""
from engine import lin as L, grenad as G, run, openfile as O
from engine.core import *
from engine.cursors import check as ccheck

RULE = ('counting block loads along every path of every cursor operation from every reachable abstract cursor state over index trees of '
        'unbounded width: at most 2 x (levels + 2); Reader::new may only read positions inside the last 22 bytes (21 for version 1)')
TECH = 'abstract interpretation of MIR (index-tree domain with a load counter; symbolic file positions)'
NOTE = 'index depths 0..2 (quick), 0..4 (thorough)'


def opening(rep, P):
    new = G.fn(P, 'Reader::new', True)
    for m in (1, 2, 'other'):
        for c in ([0, 5, 'bad'] if m != 'other' else [None]):
            name = 'opening reads, magic %s, codec %s' % (m, c)
            try:
                I, dom, outs, segs, exp = O.run(P, rep, new, None, m, c)
            except Undecided as e:
                rep.ob(name, 'undecided', str(e))
                continue
            rep.absorb(I)
            lo = L.atom(('len', 'prefix'))
            bad = und = None
            for pos, n in dom.reads:
                s = State()
                s.assume(L.le(0, lo))
                if n is None:
                    n = 0
                r = s.facts.prove(L.le(lo, pos))
                if r is False or (r is None and L.is_lin(pos) is False):
                    bad = 'reads at offset %s' % (pos,)
                elif r is None:
                    und = 'position %s' % (pos,)
                tot = L.add(lo, 22)
            if sum(1 for _ in dom.reads) > 200:
                bad = 'reads %d times' % len(dom.reads)
            if bad:
                rep.violate('Reader::new reads outside the trailer', 'opening %s, outside the trailer' % bad)
            if not dom.reads and not bad:
                und = 'no read seen'
            rep.ob(name, 'violated' if bad else 'undecided' if und else 'holds', und or '')


def check(rep, tier):
    P = ccheck(rep, tier, ('C16',), block=False)
    opening(rep, P)


if __name__ == '__main__':
    raise SystemExit(run.main('C16', check, RULE))
