"""C14: entry framing is lossless.

Abstract values: a block under construction is [prefix][entry][suffix]; key and value are opaque byte strings
whose lengths are atoms ranging over one framing class each. The writer's insert/finish and the reader's
parse + entry_at are interpreted on these abstract values; the returned key, value and end offset must be the
inserted ones for every pair of classes."""
from engine import lin as L, grenad as G, run
from engine.core import *
from engine.iodom import IODom
from engine.prog import Prog

CLASSES = [(0, (1 << 7) - 1), (1 << 7, (1 << 14) - 1), (1 << 14, (1 << 21) - 1), (1 << 21, (1 << 28) - 1),
           (1 << 28, (1 << 32) - 1)]


class Dom14(IODom):
    """keys are ordered by the order in which the scenario inserts them"""

    def __init__(self):
        super().__init__()
        self.bad = []

    def cmp_bytes(self, I, s, a, b):
        ra, rb = self.rank(a), self.rank(b)
        if ra is None or rb is None:
            return None
        return (ra > rb) - (ra < rb)

    def rank(self, g):
        if len(g) == 1 and g[0][0] == 's' and g[0][1] in ('k0', 'k1', 'k2'):
            return int(g[0][1][1])
        if not g:
            return -1
        return None

    def eq_bytes(self, I, s, a, b):
        r = self.cmp_bytes(I, s, a, b)
        return None if r is None else r == 0


def bv_value(b, env):
    n = 0
    for i, x in enumerate(b):
        if isinstance(x, int):
            n |= x << i
        elif x[0] == 'b' and x[1] in env:
            n |= ((env[x[1]] >> x[2]) & 1) << i
        else:
            return None
    return n


def check(rep, tier):
    P = Prog(run.facts('all'))
    new = G.need_fn(P, 'BlockWriter::new')
    insert = G.need_fn(P, 'BlockWriter::insert')
    finish = G.need_fn(P, 'BlockWriter::finish')
    asref = [b for b in P.roots if b['np'].endswith('BlockBuffer as std::convert::AsRef>::as_ref')]
    bnew = G.need_fn(P, 'Block::new')
    entry_at = G.need_fn(P, 'Block::entry_at')
    none_i = G.variant_index(P, 'CompressionType', 'None')
    for kc in range(5):
        for vc in range(5):
            name = 'key class %d, value class %d' % (kc + 1, vc + 1)
            dom = Dom14()
            I = Interp(P, dom, overflow='report')
            try:
                r = scenario(P, I, dom, rep, kc, vc, new, insert, finish, asref[0], bnew, entry_at, none_i, name)
            except Undecided as e:
                r = str(e)
            rep.absorb(I)
            rep.ob(name, 'holds' if r is True else 'violated' if r is False else 'undecided', '' if r in (True, False) else r)


def one(outs, what, rep, name):
    rets, pans = G.oks(outs)
    return rets, pans


def scenario(P, I, dom, rep, kc, vc, new, insert, finish, asref, bnew, entry_at, none_i, name):
    s = State()
    lens = {}
    for i in (0, 1, 2):
        for c in 'kv':
            a = ('len', c + str(i))
            cl = (1, 100) if i != 1 else CLASSES[kc if c == 'k' else vc]
            s.range(a, *cl)
            lens[c + str(i)] = a
    rets, _ = G.oks(I.run_body(s, new, []))
    if len(rets) != 1:
        raise Undecided('constructor')
    s, v = rets[0]
    cell = s.alloc(v)
    w = ('ref', cell, ())
    states = [s]
    for i in (0, 1, 2):
        nxt = []
        for s in states:
            for s2, k, v in I.run_body(s, insert, [w, ('snap', sym_bytes('k%d' % i)), ('snap', sym_bytes('v%d' % i))]):
                if k == 'ret':
                    nxt.append(s2)
                elif G.feasible(s2):
                    rep.violate('insert-panics', 'BlockWriter::insert panics for an ascending key (%s): %s; %s' % (
                        name, v, G.show_facts(s2, lens.values())))
                    return False
        states = nxt
    res = True
    if not states:
        raise Undecided('insert')
    for s in states:
        res = readback(P, I, dom, rep, s, w, finish, asref, bnew, entry_at, none_i, name, lens) and res
    return res


def readback(P, I, dom, rep, s, w, finish, asref, bnew, entry_at, none_i, name, lens):
    rets, pans = G.oks(I.run_body(s, finish, [w]))
    if len(rets) != 1:
        raise Undecided('finish')
    s, bb = rets[0]
    c = s.alloc(bb)
    rets, pans = G.oks(I.run_body(s, asref, [('ref', c, ())]))
    if len(rets) != 1:
        raise Undecided('as_ref')
    s, p = rets[0]
    raw = I.ptr_seq(s, p)
    data = (('n', 'be', 8, seq_len(raw)),) + raw
    rc = s.alloc(('obj', 'rd', norm_segs(data), 0))
    rets, pans = G.oks(I.run_body(s, bnew, [('ref', rc, ()), ('adt', none_i, ())]))
    good = True
    if pans and G.feasible(pans[0][0]):
        rep.violate('parse-panics', 'parsing a finished block panics (%s): %s' % (name, pans[0][1]))
        return False
    if not rets:
        raise Undecided('Block::new')
    for s, r in rets:
        if r[1] != 0:
            rep.violate('parse-fails', 'a finished block does not parse (%s)' % name)
            return False
        bc = s.alloc(r[2][0])
        states = [(s, 0)]
        for i in (0, 1, 2):
            nxt = []
            for s, off in states:
                und0 = sum(I.undecided.values())
                outs = I.run_body(s, entry_at, [('ref', bc, ()), off])
                if sum(I.undecided.values()) != und0:
                    good = None if good else good
                    raise Undecided('entry_at: ' + ', '.join(k[0] for k in I.undecided))
                for s2, k, v in outs:
                    if not G.feasible(s2):
                        continue
                    if k != 'ret':
                        rep.violate('entry-lost', 'reading back entry %d panics (%s): %s; e.g. %s' % (
                            i, name, v, G.show_facts(s2, lens.values())))
                        return False
                    if v[0] != 'adt' or v[1] != 1:
                        rep.violate('entry-lost', 'entry %d is not found when read back (%s); e.g. %s' % (
                            i, name, G.show_facts(s2, lens.values())))
                        return False
                    kp, vp, end = v[2][0][1]
                    for which, ptr, sym in (('key', kp, 'k%d' % i), ('value', vp, 'v%d' % i)):
                        for s3, m in G.matches(I, s2, I.ptr_seq(s2, ptr), sym_bytes(sym)[1]):
                            if m is False:
                                rep.violate('entry-altered', 'the %s of entry %d is read back as %s instead of the inserted bytes (%s); e.g. %s' % (
                                    which, i, G.show_segs(I.ptr_seq(s2, ptr)), name, G.show_facts(s3, lens.values())))
                                return False
                            if m is None:
                                good = None
                    nxt.append((s2, end))
            states = nxt
        # after the last entry there is nothing
        for s, off in states:
            for s2, k, v in I.run_body(s, entry_at, [('ref', bc, ()), off]):
                if G.feasible(s2) and not (k == 'ret' and v == NONE):
                    rep.violate('end-wrong', 'the end offset of the last entry is not the end of the payload (%s)' % name)
                    return False
    if good is None:
        raise Undecided('mismatch without a confirmed witness')
    return good


RULE = ('abstract interpretation of BlockWriter::insert/finish, Block::new and Block::entry_at over opaque keys and values '
        'whose lengths range over each pair of varint framing classes; the entry read back must be the one inserted')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C14', check, RULE))
