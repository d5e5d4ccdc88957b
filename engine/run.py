"""Check runner: facts from /repo's current tree, evidence, replay files, verdict."""
import glob, hashlib, json, os, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GRENAD_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'mirfacts')
    src = os.path.join(ROOT, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = exe + '.sha'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    sr = sysroot()
    tmp = '%s.%d' % (exe, os.getpid())
    subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp, '-C', 'link-arg=-Wl,-rpath,%s/lib' % sr],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    os.replace(tmp, exe)
    open(stamp, 'w').write(h)
    return exe


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                files.append(os.path.join(base, f))
    for f in files:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    h.update(open(os.path.join(ROOT, 'driver', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24]


def facts(features='all'):
    """path of the fact file for the current tree"""
    exe = build_driver()
    h = tree_hash()
    d = os.path.join(BUILD, 'facts')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s.json' % (features, h))
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    tgt = os.path.join(BUILD, 'target')
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'grenad-*')):
            subprocess.run(['rm', '-rf', f])
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, GRENAD_FACTS_CRATE='grenad',
                   GRENAD_FACTS_OUT=tmp, CARGO_NET_OFFLINE='true')
        # cargo writes Cargo.lock beside the manifest when missing: keep /repo untouched
        lockfile = os.path.join(REPO, 'Cargo.lock')
        had = os.path.exists(lockfile)
        args = ['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                '--target-dir', tgt]
        if features == 'all':
            args.append('--all-features')
        elif features != 'default':
            args += ['--no-default-features', '--features', features]
        p = subprocess.run(args, env=env, capture_output=True, text=True)
        if not had and os.path.exists(lockfile):
            os.remove(lockfile)
        if p.returncode != 0 or not os.path.exists(tmp):
            sys.stderr.write(p.stderr[-3000:])
            raise Build('fact extraction failed')
        for f in glob.glob(os.path.join(d, features + '-*.json')):
            if f != out:
                os.remove(f)
        os.replace(tmp, out)
    finally:
        lock.close()
    return out


class Build(RuntimeError):
    pass


class Report:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.violations = {}
        self.obligations = []     # (name, status, note)
        self.functions = set()
        self.undecided = {}
        self.modelled = {}
        self.notes = []
        self.cov = {}
        self.t0 = time.time()

    def violate(self, key, text):
        """key: stable identification of the construct without line numbers"""
        self.violations.setdefault(key, text)

    def ob(self, name, status, note=''):
        self.obligations.append((name, status, note))

    def absorb(self, I):
        self.functions |= set(f for f in I.called)
        for k, n in I.undecided.items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        for k, n in I.modelled.items():
            self.modelled[k] = self.modelled.get(k, 0) + n


    def merge(self, r):
        for k, v in r.violations.items():
            self.violations.setdefault(k, v)
        self.obligations += r.obligations
        self.functions |= r.functions
        for k, n in r.undecided.items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        for k, n in r.modelled.items():
            self.modelled[k] = self.modelled.get(k, 0) + n
        self.cov.update(r.cov)


_job = None


def label(x):
    if isinstance(x, tuple):
        return ' '.join(str(y) for y in x if isinstance(y, (str, int)))[:80]
    return str(x)[:80]


def _work(i):
    fn, rep, items = _job
    from .core import Undecided
    r = Report(rep.prop, rep.tier, rep.level)
    try:
        fn(r, items[i])
    except Undecided as e:
        r.ob(label(items[i]), 'undecided', str(e))
    except RecursionError:
        r.ob(label(items[i]), 'undecided', 'analysis recursion')
    except Exception as e:
        import traceback
        traceback.print_exc()
        if os.environ.get('GRENAD_TRACE'):
            traceback.print_exc()
        r.ob(label(items[i]), 'undecided', 'internal: %r' % e)
    return r


import time as _time
START = _time.time()
BUDGET, BUDGET_THOROUGH = 420, 800


def pmap(rep, fn, items, procs=8):
    """fn(report, item) for every item in forked workers; the reports are merged in order"""
    import multiprocessing
    global _job
    items = list(items)
    if os.environ.get('GRENAD_SERIAL') or len(items) <= 1:
        for x in items:
            _job = (fn, rep, [x])
            rep.merge(_work(0))
        return
    import time
    _job = (fn, rep, items)
    limit = START + (BUDGET_THOROUGH if rep.tier == 'thorough' else BUDGET)
    done = {}
    kn = known().get(rep.prop, [])
    with multiprocessing.get_context('fork').Pool(min(procs, len(items))) as pool:
        it = pool.imap_unordered(_iwork, range(len(items)), 1)
        while len(done) < len(items):
            try:
                i, r = it.next(max(0.01, limit - time.time()))
            except multiprocessing.TimeoutError:
                break
            done[i] = r
            if any(k not in kn for k in r.violations):
                # the verdict is settled: give the other jobs a little time to say what else is wrong
                limit = min(limit, time.time() + 30)
        pool.terminate()
    for i in sorted(done):
        rep.merge(done[i])
    if len(done) < len(items):
        rep.ob('%d further jobs' % (len(items) - len(done)), 'undecided', 'time budget')


def _iwork(i):
    return i, _work(i)


def known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                rest = l[7:]
                prop, key = rest.split(' ', 1)
                out.setdefault(prop.split('=')[1], []).append(key)
    return out


def main(prop, fn, rule, level='other', floor=1):
    """fn(report, tier): fills the report"""
    tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    rep = Report(prop, tier, level)
    from .grenad import Missing
    from .core import Undecided
    try:
        fn(rep, tier)
    except Missing as e:
        rep.violate('missing-anchor %s' % e, 'the public item %s the property is anchored in does not exist' % e)
    except Undecided as e:
        rep.ob('analysis', 'undecided', str(e))
    except Build:
        raise
    except Exception as e:
        # an internal failure of the analysis is no verdict about the code
        import traceback
        traceback.print_exc()
        rep.ob('analysis', 'undecided', 'internal: %r' % e)
    if os.environ.get('GRENAD_DEBUG'):
        for k, n in sorted(rep.undecided.items(), key=lambda x: -x[1])[:40]:
            print('  undecided', n, k)
    decided = [o for o in rep.obligations if o[1] == 'holds']
    und = [o for o in rep.obligations if o[1] == 'undecided']
    kn = known().get(prop, [])
    new = {}
    for k, t in rep.violations.items():
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            new[k] = t
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': rule,
            'obligations': len(rep.obligations), 'discharged': len(decided),
            'undecided': [list(o) for o in und][:60],
            'violations': sorted(rep.violations),
            'functions_analysed': sorted(f for f in rep.functions if not f.startswith(('std::', '<std::', 'core::', '<core::', 'alloc::')))[:200],
            'library_bodies_analysed': len([f for f in rep.functions if f.startswith(('std::', '<std::', 'core::', '<core::', 'alloc::'))]),
            'library_models_used': dict(sorted(rep.modelled.items())[:120]),
            'paths_not_decided': {'%s [%s]' % k: n for k, n in sorted(rep.undecided.items(), key=lambda x: -x[1])[:40]},
            'rule_instances': [list(o) for o in rep.obligations][:300],
        },
        'wall_s': round(time.time() - rep.t0, 2),
    }
    ev['coverage'].update(rep.cov)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed; %.1f s' % (
        prop, len(rep.obligations), len(decided), len(und), len(rep.violations), len(ev['coverage']['functions_analysed']),
        ev['wall_s']))
    for o in und[:10]:
        print('  undecided: %s: %s' % (o[0], o[2]))
    if new:
        rd = os.path.join(ROOT, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + '.txt')
        with open(path, 'w') as f:
            f.write('rule: %s\n\n' % rule)
            for k, t in new.items():
                f.write('%s\n%s\n\n' % (k, t))
        for k, t in list(new.items())[:8]:
            print('  %s: %s' % (k, t.replace('\n', '\n    ')[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
