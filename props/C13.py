"""C13: opening accepts exactly byte strings ending in a valid trailer and never panics."""
from engine import lin as L, grenad as G, run, openfile as O
from engine.core import *
from engine.prog import Prog

RULE = ('Reader::new is interpreted on byte strings [arbitrary prefix][symbolic tail bytes] for every tail class: magic V1 / V2 / neither (any '
        'other value; every one-bit neighbour), every codec id class, every total length below the trailer size; it must return Ok exactly '
        'when the trailer is complete, known magic, known codec, with the fields of the trailer, and never panic')
TECH = 'abstract interpretation of MIR (symbolic byte strings, exhaustive trailer classes)'
NOTE = 'sources behave as in-memory byte strings (short reads: C11, failing sources: C12)'


def classes(tier):
    out = []
    for n in [None] + list(range(0, 25)):
        for m in (1, 2, 'other'):
            if n is not None and n < 4 and m != 'other':
                continue
            if m == 'other':
                out.append((n, m, None))
                continue
            if n is None or n >= O.SIZE[m]:
                for c in list(range(6)) + ['bad'] + ([6, 7, 128, 255] if n is None else []):
                    if n is not None and n > 22 and c not in (0, 'bad'):
                        continue
                    out.append((n, m, c))
            else:
                out.append((n, m, None))
    for v, m in O.MAGIC.items():
        for b in range(32):
            out.append((None, m ^ (1 << b), None))
        out.append((None, int.from_bytes(m.to_bytes(4, 'little'), 'big'), None))
    return out


def work(rep, item):
    P, new, cls = item
    for n, m, c in cls:
        mm = m if isinstance(m, str) or m in (1, 2) else '%08x' % m
        name = 'tail %s, magic %s, codec %s' % ('22+ bytes' if n is None else '%d bytes' % n, mm, c)
        try:
            I, dom, outs, segs, exp = O.run(P, rep, new, n, m, c)
        except Undecided as e:
            rep.ob(name, 'undecided', str(e))
            continue
        rep.absorb(I)
        bad = und = None
        for s, kind, v in outs:
            if m == 'other' and O.impossible(s, segs):
                continue
            if kind == 'panic':
                bad = ('Reader::new panics', 'opening panics: %s' % (v,))
                continue
            try:
                okv = G.variant(I, s, v)
                if okv[1] == 0 and exp is None:
                    bad = ('Reader::new accepts', 'a byte string without a valid trailer is accepted')
                elif okv[1] != 0 and exp is not None:
                    bad = ('Reader::new rejects', 'a byte string ending in a valid version-%d trailer is rejected' % exp)
                elif okv[1] == 0:
                    w = O.check_fields(P, I, s, okv[2][0], segs, exp)
                    if w:
                        bad = ('Reader::new reads %s' % w, 'opening a version-%d trailer yields a wrong %s' % (exp, w))
            except Undecided as e:
                und = str(e)
        if I.undecided:
            und = str(sorted(I.undecided)[:2])
        if not outs and not und:
            und = 'no outcome'
        if bad:
            rep.violate(bad[0], '%s (%s)' % (bad[1], name))
        rep.ob(name, 'violated' if bad else 'undecided' if und else 'holds', und or '')


def check(rep, tier):
    P = Prog(run.facts('all'))
    new = G.fn(P, 'Reader::new', True)
    cl = classes(tier)
    run.pmap(rep, work, [(P, new, cl[i::8]) for i in range(8)])


if __name__ == '__main__':
    raise SystemExit(run.main('C13', check, RULE))
