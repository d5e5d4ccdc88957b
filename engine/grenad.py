"""Locating the functions and types of the crate that the properties anchor in."""
import re
from . import lin as L
from .core import Interp, State, Undecided, UNIT, NONE, some, norm_segs, seq_len


class Missing(Exception):
    """a public anchor is absent: the check fails closed"""


def fn(P, name, public=False):
    """root body of `Type::method` / `function` regardless of the module it lives in"""
    b = P.root(name)
    if b is not None:
        return b
    parts = name.split('::')
    tail = '::'.join(parts[-2:]) if len(parts) > 1 else name
    c = [b for b in P.roots if b['local'] and (b['np'] == tail or b['np'].endswith('::' + tail))]
    if len(set(b['np'] for b in c)) == 1:
        return c[0]
    if public:
        raise Missing(name)
    return None


def need_fn(P, name):
    b = fn(P, name)
    if b is None:
        raise Undecided('anchor %s not found' % name)
    return b


def adt(P, tail):
    """type entries of a local adt by trailing path"""
    return [t for t in P.T if t.get('k') == 'adt' and (t['path'] == tail or t['path'].endswith('::' + tail))]


def fields(P, tail):
    """[(name, type string)] of a local struct"""
    for t in adt(P, tail):
        if t.get('variants') and not t['enum']:
            return [(n, P.T[x]['s']) for n, x in t['variants'][0]['fields']]
    return None


def variant_index(P, tail, name):
    for t in adt(P, tail):
        if t.get('variants'):
            for i, v in enumerate(t['variants']):
                if v['name'] == name:
                    return i
    raise Undecided('variant %s::%s' % (tail, name))


def field_by_ty(P, tail, pred, unique=True):
    fs = fields(P, tail)
    if fs is None:
        raise Undecided('no fields of ' + tail)
    c = [i for i, (n, s) in enumerate(fs) if pred(n, s)]
    if len(c) == 1 or (c and not unique):
        return c[0]
    raise Undecided('field of %s not identified' % tail)


def with_field(v, i, x):
    fs = list(v[2])
    fs[i] = x
    return ('adt', v[1], tuple(fs))


def oks(outs):
    """split outcomes: (returns, panics)"""
    return [(s, v) for s, k, v in outs if k == 'ret'], [(s, v) for s, k, v in outs if k == 'panic']


def variant(I, s, v):
    if v[0] == 'symenum':
        v = I.sym_variant(s, v)
    return v


def settled(s, segs):
    """the same bytes with everything the facts fix written out: numbers of known value, known bounds of parts, parts
    known to be empty or to follow one another"""
    out = []
    for x in segs:
        for y in settle_one(s, x):
            if y[0] == 's' and out and out[-1][0] == 's' and out[-1][1] == y[1] and out[-1][3] != y[2] and s.facts.prove(L.eq(out[-1][3], y[2])):
                y = ('s', y[1], out[-1][3], y[3])
            out.append(y)
            out = list(norm_segs(out))
    return norm_segs(out)


def settle_one(s, x):
    if x[0] == 'n' and not isinstance(x[3], int):
        v = s.facts.value(x[3]) if x[3] and x[3][0] == 'lin' else None
        if v is not None:
            return tuple(('e', b) for b in (v % (1 << 8 * x[2])).to_bytes(x[2], 'big' if x[1] == 'be' else 'little'))
    if x[0] == 's':
        sym = x[1]
        if isinstance(sym, tuple) and sym[0] == 'enc':
            sym = sym[:3] + (settled(s, sym[3]),)
        lo, hi = fixed(s, x[2]), fixed(s, x[3])
        if lo != hi and not (isinstance(lo, int) and isinstance(hi, int)) and s.facts.prove(L.eq(lo, hi)):
            return ()
        return (('s', sym, lo, hi) + x[4:],)
    return (x,)


def fixed(s, v):
    if isinstance(v, int):
        return v
    n = s.facts.value(v)
    return v if n is None else n


def match(I, s, a, b):
    """do two byte sequences agree under the facts of s? asks (forks) where lengths decide; opaque contents
    with different names are different"""
    a = [y for x in settled(s, a) for y in explode(x)]
    b = [y for x in settled(s, b) for y in explode(x)]
    while a or b:
        if not a or not b:
            r = a or b
            if not s.ask(L.eq(seg_len(r[0]), 0)):
                return False
            r.pop(0)
            continue
        x, y = a[0], b[0]
        if x == y:
            a.pop(0)
            b.pop(0)
            continue
        lx, ly = seg_len(x), seg_len(y)
        if lx != 1 and not (x[0] in ('e', 'n', 'ns')) and s.ask(L.eq(lx, 0)):
            a.pop(0)
            continue
        if ly != 1 and not (y[0] in ('e', 'n', 'ns')) and s.ask(L.eq(ly, 0)):
            b.pop(0)
            continue
        if x[0] == 'e' and y[0] == 'e':
            if not val_eq(I, s, x[1], y[1]):
                return False
            a.pop(0)
            b.pop(0)
            continue
        if x[0] == 'n' and y[0] == 'n' and x[1:3] == y[1:3]:
            if not val_eq(I, s, x[3], y[3]):
                return False
            a.pop(0)
            b.pop(0)
            continue
        if x[0] == 's' and y[0] == 's' and x[1] == y[1]:
            if not s.ask(L.eq(x[2], y[2])):
                return False
            if s.ask(L.eq(x[3], y[3])):
                a.pop(0)
                b.pop(0)
            elif s.ask(L.lt(x[3], y[3])):
                a.pop(0)
                b[0] = ('s', y[1], x[3], y[3])
            else:
                b.pop(0)
                a[0] = ('s', x[1], y[3], x[3])
            continue
        if x[0] == 'rep' and y[0] == 'rep' and x[1] == y[1]:
            if s.ask(L.eq(x[2], y[2])):
                a.pop(0)
                b.pop(0)
            elif s.ask(L.lt(x[2], y[2])):
                a.pop(0)
                b[0] = ('rep', y[1], L.sub(y[2], x[2]))
            else:
                b.pop(0)
                a[0] = ('rep', x[1], L.sub(x[2], y[2]))
            continue
        if x[0] in ('frun', 'run') and y[0] == x[0]:
            if x[1] == y[1] and s.ask(L.eq(x[2], y[2])) and x[3:] == y[3:]:
                a.pop(0)
                b.pop(0)
                continue
            return False
        return False
    return True


def val_eq(I, s, x, y):
    if x == y:
        return True
    nx, ny = I.as_num(x), I.as_num(y)
    if nx is not None and ny is not None:
        return s.ask(L.eq(nx, ny))
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'bv' and y[0] == 'bv':
        return False
    return False


def matches(I, s, a, b):
    """[(state, bool)] over all case splits; a False outcome is kept only with a confirmed small witness"""
    out = []
    for s2, r in I.branch(s, lambda x: match(I, x, a, b)):
        if not r and not feasible(s2):
            out.append((s2, None))
        else:
            out.append((s2, r))
    return out


def feasible(s):
    """the linear facts of s have a small integer solution"""
    atoms = set()
    for q in s.facts.ineq:
        for a, _ in q[2]:
            atoms.add(a)
    for q in s.facts.ne:
        for a, _ in q[2]:
            atoms.add(a)
    if not atoms:
        return True
    return L.find_model(s.facts, sorted(atoms, key=L.akey), True) is not None


def show_facts(s, only=None):
    """a short text of one concrete instance of the linear facts"""
    atoms = set(only or ())
    for q in s.facts.ineq:
        for a, _ in q[2]:
            atoms.add(a)
    m = L.find_model(s.facts, sorted(atoms, key=L.akey), True) if atoms else None
    if not m:
        return ''
    return ', '.join('%s=%d' % (name(a), v) for a, v in sorted(m.items(), key=lambda kv: L.akey(kv[0])))


def name(a):
    if isinstance(a, tuple):
        return '%s(%s)' % (a[0], ','.join(str(x) for x in a[1:]))
    return str(a)


from .core import explode, seg_len


def stray(r):
    """a panic that stands for an access outside a buffer or a size that overflowed"""
    return re.search(r'overflow|out of bounds|out of range|slice index|range (start|end)|beyond the end|lengths differ|cast_slice|multiple of', str(r)) is not None


def lent(I, s, v):
    """what is wrong with the memory the references in a result point to"""
    if not isinstance(v, tuple):
        return
    if v and v[0] == 'snap':
        if len(v) > 2 and settled(s, v[1][1]) and not any(holds(x, v[2]) for c, x in s.mem.items() if c[0] == 'g') and feasible(s):
            yield 'whose bytes were moved, changed or freed after they were borrowed'
        return
    if v and v[0] == 'ref':
        if isinstance(v[1][0], int) and v[1][0] > s.depth and feasible(s):
            yield 'that lives in the frame of a function that returned'
        return
    for x in v:
        if isinstance(x, tuple):
            yield from lent(I, s, x)


def holds(v, whole):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'seq' and v == whole:
        return True
    if v[0] in ('ref', 'snap', 'lin', 's', 'n'):
        return False
    return any(holds(x, whole) for x in v if isinstance(x, tuple))


def show_segs(segs):
    out = []
    for x in segs:
        if x[0] == 'e':
            out.append(str(x[1]) if isinstance(x[1], int) else '?')
        elif x[0] == 's':
            out.append('%s[%s..%s]' % (x[1], show_lin(x[2]), show_lin(x[3])))
        else:
            out.append(str(x[:3]))
    return ' ++ '.join(out)


def show_lin(v):
    if isinstance(v, int):
        return str(v)
    if v[0] == 'lin':
        return '+'.join(([str(v[1])] if v[1] else []) + ['%s%s' % ('' if k == 1 else '%d*' % k, name(a)) for a, k in v[2]])
    return str(v)
