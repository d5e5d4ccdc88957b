"""Programs that keep a returned key and value while their owner changes or dies: the type checker must reject them."""
import glob, json, os, re, subprocess, tempfile, time
from . import run

HEAD = '''#![allow(unused, dropping_references)]
use grenad::*;
use std::io::{Read, Seek};
use std::borrow::Cow;
fn keep<T>(_: T) {}
'''
BORROWS = {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0716', 'E0503', 'E0515', 'E0521', 'E0713', 'E0310', 'E0311'}
CUR = 'ReaderCursor<R>'
OWNERS = [(CUR, 'R: Read + Seek', m, a) for m, a in (
    ('current', ''), ('move_on_first', ''), ('move_on_last', ''), ('move_on_next', ''), ('move_on_prev', ''),
    ('move_on_key_lower_than_or_equal_to', 'b"k"'), ('move_on_key_greater_than_or_equal_to', 'b"k"'), ('move_on_key_equal_to', 'b"k"'))]
OWNERS += [(t + '<R>', 'R: Read + Seek', 'next', '') for t in ('RangeIter', 'RevRangeIter', 'PrefixIter', 'RevPrefixIter')]
OWNERS += [('MergerIter<R, MF>', 'R: Read + Seek, MF: MergeFunction', 'next', '')]


def names():
    return list(range(len(OWNERS)))


def programs(i):
    """(name, program that must compile, [(what it does, program that must not)])"""
    ty, g, m, a = OWNERS[i]
    call = 'o.%s(%s)' % (m, a)
    again = 'o.%s()' % ('move_on_next' if ty == CUR else 'next')
    good = 'fn f<%s>(mut o: %s) { { let e = %s; keep(e); } { let e = %s; keep(e); } drop(o); }' % (g, ty, call, again)
    bad = [('is kept across the next call', 'fn f<%s>(o: &mut %s) { let e = %s; keep(%s); keep(e); }' % (g, ty, call, again)),
           ('outlives its owner', 'fn f<%s>(mut o: %s) { let e = %s; drop(o); keep(e); }' % (g, ty, call))]
    if ty == CUR:
        bad.append(('is kept while the source is taken back', 'fn f<%s>(mut o: %s) { let e = %s; let r = o.into_inner(); keep(e); }' % (g, ty, call)))
        bad.append(('is kept across a reset', 'fn f<%s>(mut o: %s) { let e = %s; o.reset(); keep(e); }' % (g, ty, call)))
    return '%s::%s' % (ty.split('<')[0], m), good, bad


def library():
    """(metadata of the crate as it is now, directory of its dependencies)"""
    h = run.tree_hash()
    tgt = os.path.join(run.BUILD, 'target')
    keepd = os.path.join(run.BUILD, 'lib')
    os.makedirs(keepd, exist_ok=True)
    out = os.path.join(keepd, 'libgrenad-%s.rmeta' % h)
    import fcntl
    lock = open(os.path.join(run.BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out, deps(tgt)
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'grenad-*')):
            subprocess.run(['rm', '-rf', f])
        lockfile = os.path.join(run.REPO, 'Cargo.lock')
        had = os.path.exists(lockfile)
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--all-features', '--message-format=json', '--manifest-path',
                            os.path.join(run.REPO, 'Cargo.toml'), '--target-dir', tgt], capture_output=True, text=True,
                           env=dict(os.environ, CARGO_NET_OFFLINE='true'))
        if not had and os.path.exists(lockfile):
            os.remove(lockfile)
        meta = None
        for line in p.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'grenad':
                meta = [f for f in d['filenames'] if f.endswith('.rmeta')]
        if p.returncode != 0 or not meta:
            raise run.Build('the crate does not build')
        for f in glob.glob(os.path.join(keepd, '*.rmeta')):
            os.remove(f)
        tmp = out + '.%d' % os.getpid()
        with open(meta[0], 'rb') as f, open(tmp, 'wb') as g:
            g.write(f.read())
        os.replace(tmp, out)
        return out, deps(tgt)
    finally:
        lock.close()


def deps(tgt):
    return sorted(set(os.path.dirname(f) for e in ('rmeta', 'so', 'rlib') for f in glob.glob(os.path.join(tgt, 'debug', '**', 'lib*.' + e), recursive=True)))


def compiles(text, lib):
    """(accepted, error codes)"""
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 'w.rs')
        open(src, 'w').write(HEAD + text + '\n')
        p = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '-o', os.path.join(d, 'w.rmeta'),
                            '--error-format', 'json', '--extern', 'grenad=' + lib[0], src] + [x for d in lib[1] for x in ('-L', 'dependency=' + d)],
                           capture_output=True, text=True)
    codes = set()
    for line in p.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('level') == 'error' and m.get('code'):
            codes.add(m['code']['code'])
    return p.returncode == 0, codes


def check(rep, i, lib):
    name, good, bad = programs(i)
    ok, codes = compiles(good, lib)
    if not ok:
        rep.ob('witness for %s' % name, 'undecided', 'the ordinary use does not compile: %s' % sorted(codes))
        return
    for what, text in bad:
        ok, codes = compiles(text, lib)
        if ok:
            rep.violate('%s: lifetime of the entry' % name, 'a program in which the entry returned by %s %s compiles: it would read changed or freed memory (%s)' % (name, what, text))
        rep.ob('a program in which the entry returned by %s %s is rejected' % (name, what),
               'violated' if ok else 'holds' if codes and codes <= BORROWS else 'undecided', '%s: %s' % (text, sorted(codes)))
