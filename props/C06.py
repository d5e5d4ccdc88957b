"""C06: k-way merge."""
import itertools
from engine import grenad as G, run, merging as M
from engine.core import *
from engine.prog import Prog


def shapes(tier):
    """(masks over the keys, number of keys)"""
    out = [((), 1)]
    for n, srcs in ((2, 1), (4, 2), (3, 3), (2, 4), (1, 5)) if tier == 'quick' else ((4, 1), (5, 2), (4, 3), (2, 4), (2, 5), (1, 7)):
        out += [(m, n) for m in itertools.product(range(1 << n), repeat=srcs)]
    full = lambda n: (1 << n) - 1
    out += [((1,) * 12, 1), ((3,) * 9, 2), ((full(20), full(20)), 20), ((0x55555, 0xaaaaa, full(20)), 20),
            ((1, 2, 4, 8, 16, 32, 64, 128, 256), 9), ((256, 128, 64, 32, 16, 8, 4, 2, 1, 511), 9), ((0,) * 6, 1), ((1,) * 70, 1),
            ((full(130),), 130), ((0,) * 20 + (3,) + (0,) * 20 + (1,), 2)]
    return out


FILES = [((3, 1, 2), 2), ((7, 7), 3), ((5, 2), 3), ((0, 3, 0), 2), ((1, 1, 1), 1), ((15, 6, 9, 8), 4), ((31,), 5), ((21, 10, 31), 5)]


def forwarding(rep, P):
    """the adapters around merge functions hand the call through"""
    import re
    # a reference, and either of two functions
    cases = []
    for b in P.roots:
        m = re.match(r'<(.*) as merge_function::MergeFunction>::merge$', b['np'])
        if not m or not b['local']:
            continue
        if m.group(1).startswith('&'):
            cases.append((b, ('snap', ('snap', ('obj', 'mf', 'a'))), 'a', 'a reference'))
        elif 'Either' in m.group(1):
            cases.append((b, ('snap', ('adt', 0, (('obj', 'mf', 'a'),))), 'a', 'Either::Left'))
            cases.append((b, ('snap', ('adt', 1, (('obj', 'mf', 'b'),))), 'b', 'Either::Right'))
    for b, selfv, who, what in cases:
        for n in (1, 2, 3):
            s = State()
            dom = M.MergeDom(P, 1)
            I = Interp(P, dom, overflow='report')
            l = M.lists_of(s, (1,) * n, 1)
            key = l[0][0][0]
            vals = tuple(x[0][1] for x in l)
            name = 'the merge function behind %s, %d values' % (what, n)
            bad = None
            try:
                arr = ('seq', tuple(('e', ('adt', 0, (('snap', ('seq', v)),))) for v in vals))
                outs = I.run_body(s, b, [selfv, ('snap', ('seq', key)), ('snap', arr)])
                for s1, k, v in outs:
                    if k != 'ret' or v[1] != 0:
                        bad = 'fails'
                    elif [c[:2] for c in s1.g('merges', ()) if c[2:] == (who,)] != [(key, vals)] or len(s1.g('merges', ())) != 1:
                        bad = 'is not called once with the key and values given'
                    elif dom.bytes_of(I, s1, v[2][0]) != dom.merged(key, vals):
                        bad = 'has its result changed'
            except Undecided as e:
                I.und(str(e))
            rep.absorb(I)
            if bad:
                rep.violate('forward ' + what, '%s %s' % (name, bad))
            rep.ob(name, 'violated' if bad else 'undecided' if I.undecided else 'holds', str(list(I.undecided)[:2]))


def scenario(P, mg, rep, jobs, want=None, prefix='merge', **domkw):
    """runs [(masks, n, cow, stream, via, how)]; reports the findings whose kind is wanted"""
    bad, undec, n = {}, {}, 0
    for masks, nk, cow, stream, via, how in jobs:
        s = State()
        I = Interp(P, M.MergeDom(P, nk, cow, **domkw), overflow='report')
        what = M.describe(masks, nk) if nk < 10 and len(masks) < 10 else '%d sources over %d keys' % (len(masks), nk)
        try:
            res = mg.check(I, s, M.lists_of(s, masks, nk, how == 'file'), what, stream, via, how)
        except Undecided as e:
            res = []
            I.und(str(e))
        except M.Bad as e:
            res = [(e.kind, e.text)]
        rep.absorb(I)
        n += 1
        for k, t in res:
            if want is None or k in want:
                bad.setdefault(k, t)
        if I.undecided and not res:
            undec[str(list(I.undecided)[0])[:120]] = what
    return bad, undec, n


def check(rep, tier):
    P = Prog(run.facts('all'))
    mg = M.Merging(P)
    forwarding(rep, P)
    sh = shapes(tier)
    groups = []
    for how, lst in (('list', sh), ('file', FILES)):
        for stream in (False, True):
            for cow in ('owned', 'borrowed'):
                js = [(m, n, cow, stream, ('builder', 'new', 'extend')[(i + stream) % 3], how) for i, (m, n) in enumerate(lst)]
                k = max(1, len(js) // 6)
                for i in range(0, len(js), k):
                    groups.append((how, stream, cow, js[i:i + k]))

    def one(rep, g):
        how, stream, cow, js = g
        bad, undec, n = scenario(P, mg, rep, js)
        name = '%s over %s, the merge function answering with %s data: %d configurations of sources (%s ..)' % (
            'write_into_stream_writer' if stream else 'into_stream_merger_iter and next', 'entry lists' if how == 'list' else 'files', cow, n,
            M.describe(js[0][0], js[0][1]))
        for k, t in bad.items():
            rep.violate(k, t)
        rep.ob(name, 'violated' if bad else 'undecided' if undec else 'holds', str(list(undec.items())[:2]))
    run.pmap(rep, one, groups)


RULE = ('abstract interpretation of MergerBuilder, Merger and MergerIter over every way a few sources can share a few ordered opaque keys '
        '(up to five sources exhaustively, larger ones in samples), with the cursors summarised by their entry lists and again with real '
        'cursors over encoded files; the priority queue is abstracted by its ordering contract with ties explored in every order; the '
        'yielded keys and values and every call of the merge function are compared with the specification')

if __name__ == '__main__':
    import sys
    sys.exit(run.main('C06', check, RULE))
