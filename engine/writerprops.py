"""The writer configurations each property is decided over."""
from . import grenad as G, run
from . import wfile as W
from .core import *
from .prog import Prog

KIND = {'layout': 'C09', 'cut': 'C15', 'order': 'C18', 'panic': 'C01', 'error': 'C01'}


def settle(rep, name, F, want):
    """one obligation; `want`: the kinds of findings this property is about"""
    rep.absorb(F.I)
    bad = [b for b in F.bad if b[0] in want]
    for k, key, text in bad:
        rep.violate(key, text)
    if bad:
        rep.ob(name, 'violated')
    elif F.und:
        rep.ob(name, 'undecided', F.und[0])
    elif F.I.undecided:
        rep.ob(name, 'undecided', sorted(F.I.undecided)[0][0])
    elif not F.checked:
        rep.ob(name, 'undecided', 'no outcome')
    else:
        rep.ob(name, 'holds')


def jobs(tier):
    top = 3 if tier == 'quick' else 4
    for lv in range(top + 1):
        for kinds in W.all_kinds(lv):
            for vl in W.VALUES:
                yield ('insert', lv, kinds, 'None', vl, 2 if lv < 3 else 1)
            yield ('finish', lv, kinds, 'None', None, 2 if lv < 3 else 1)
            if lv < 3:
                for vl in W.VALUES:
                    yield ('insert', lv, kinds, 'None', vl, 'any')
                yield ('finish', lv, kinds, 'None', None, 'any')


def codec_jobs():
    for c in W.CODECS[1:]:
        for kinds in W.all_kinds(1):
            yield ('insert', 1, kinds, c, 5000, 1)
            yield ('finish', 1, kinds, c, None, 1)


def step(S, job):
    op, lv, kinds, codec, vl, tab = job[:6]
    bsize = job[6] if len(job) > 6 else 'ok'
    I = Interp(S.P, W.KeyDom(W.ranks(lv)), overflow='report')
    F = W.Found(I)
    lvl = True if codec != 'None' else None
    try:
        if op == 'insert':
            W.insert_step(S, F, lv, kinds, codec, lvl, vl, tab, bsize=bsize)
        else:
            W.finish_step(S, F, lv, kinds, codec, lvl, tab)
    except Undecided as e:
        F.und.append(str(e))
    name = '%s: %s, value %s, %s%s' % (op, W.describe(lv, kinds, codec), 'below 128 bytes' if vl is None else '%d bytes' % vl,
                                       'any block size, ' if bsize == 'any' else '',
                                       'any offset table' if tab == 'any' else '%d offsets' % tab)
    return F, name


def deep(S):
    """the deepest index: 255 levels, from empty and with data pending"""
    return [('finish', 255, 'E' + 'E' * 256, 'None', None, 1), ('finish', 12, 'N' + 'E' * 13, 'None', None, 1),
            ('insert', 255, 'E' + 'E' * 256, 'None', 5000, 1)]
