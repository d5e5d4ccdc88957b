"""C02/C03/C16 driver: block level and file level cursor explorations."""
import time
from . import grenad as G, run, blockcur, readercur
from .core import Undecided
from .prog import Prog


def block_level(rep, P, deadline):
    viol = {}
    for world in ('anti', 'chain'):
        e = blockcur.Explorer(P, rep, '', deadline, world=world)
        st, tr, und = e.run()
        used = e.outside(e.bodies)
        tag = '' if world == 'anti' else ', keys prefixes of the greater ones'
        rep.cov['block_cursor_states' + tag] = st
        rep.cov['block_cursor_transitions' + tag] = tr
        for o, b in sorted(e.bodies.items()):
            v = [k for k, x in e.viol.items() if x[2] == o]
            u = [k for k in e.I.undecided if True]
            stt = 'violated' if v and o in used else 'undecided' if (v or u) else 'holds'
            rep.ob('block cursor %s: every state, every block%s' % (o, tag), stt,
                   'not used outside the block cursor' if v and o not in used else str(u[:2]) if u else '')
        for k, x in e.viol.items():
            if x[2] in used:
                viol.setdefault(k, x)
        if not e.dom.asked:
            break
    return viol


def seek_blocks(rep, P, deadline):
    """the block-level part of seeks: the sequences of block operations they apply, from freshly loaded blocks"""
    seqs = sorted(readercur.sequences(P, 1, deadline), key=lambda q: (len(q), q))
    rep.cov['block operation sequences of seeks'] = ['>'.join(q) for q in seqs]
    for q in seqs:
        for world in ('anti', 'chain'):
            e = blockcur.Explorer(P, rep, '', deadline, world=world, script=q)
            e.run()
            v = {k: x for k, x in e.viol.items() if x[2] == q[-1]}
            rep.ob('block cursor %s%s: every block' % ('>'.join(q), '' if world == 'anti' else ', keys prefixes of the greater ones'),
                   'violated' if v else 'undecided' if e.I.undecided else 'holds', str(list(e.I.undecided)[:2]) if e.I.undecided else '')
            for k, x in v.items():
                rep.violate(k, 'a seek relies on %s, but %s%s' % ('>'.join(q), x[0],
                            ' where every key is a prefix of all greater ones' if world == 'chain' else ''))
            if not e.dom.asked:
                break


def file_level(rep, P, levels, deadline, props):
    try:
        e, conf, unconf = readercur.explore(P, levels, deadline, props=props)
    except Undecided as x:
        rep.ob('cursor over %d index levels' % levels, 'undecided', str(x))
        return
    rep.absorb(e.I)
    rep.cov['cursor_states_L%d' % levels] = e.stats[0]
    rep.cov['cursor_transitions_L%d' % levels] = e.stats[1]
    rep.cov['max_loads_L%d' % levels] = '%d of %d' % (e.maxloads, e.bound)
    mine = [k for k in conf if k[0] in props]
    for k in mine:
        rep.violate(k[1], 'with %d index levels: %s' % (levels, conf[k]))
    und = sorted(e.I.undecided) + [k for k in unconf if k[0] in props]
    rep.ob('cursor over %d index levels: %d states, all operations' % (levels, e.stats[0]),
           'violated' if mine else 'undecided' if und else 'holds', str(und[:3]) if und else '')


def work(rep, item):
    kind, P, lv, deadline, props = item
    if kind == 'block' and 'C03' not in props:
        return seek_blocks(rep, P, deadline)
    if kind == 'block':
        for k, x in block_level(rep, P, deadline).items():
            rep.violate(k, x[0])
        return
    file_level(rep, P, lv, deadline, props)


def check(rep, tier, props, block=True):
    P = Prog(run.facts('all'))
    for m in readercur.OPS.values():
        if m != 'clone':
            G.fn(P, 'ReaderCursor::' + m, True)
    end = time.time() + (240 if tier == 'quick' else 700)
    depth = 3 if tier == 'quick' else 5
    items = [('file', P, lv, end, props) for lv in range(depth - 1, -1, -1)]
    if block:
        items.append(('block', P, 0, end, props))
    run.pmap(rep, work, items)
    return P
