"""Machinery shared by the checks: building the library under test, running one generated case in a
process of its own, driving Hypothesis over shards, shrinking, replaying, evidence.

A case is a JSON value. A property module (vf/props/cNN.py) provides

    ID, RULE                     property id; how cases are made and what makes one non-trivial
    strategy(tier)               Hypothesis strategy of cases
    EXAMPLES                     directed cases, always run (may be empty)
    check(case, api)             raises (any exception) when the property is broken, else returns
                                 {'nontrivial': bool, 'labels': [...], 'comparisons': int}
    CASES = {'quick': n, 'thorough': n}   generated cases over all shards
"""
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CPU_LIMIT = 150          # CPU seconds for one case; ordinary cases take well under 5
NSHARDS = 8


class Violation(Exception):
    pass


# ---------------------------------------------------------------- build

def build(out, repo=None, extra='', cc='gcc'):
    """Builds regpt.so from repo/src into out/pkg/pyregpt/lib and copies the Python package beside it."""
    repo = repo or REPO
    extra = (extra + ' ' + os.environ.get('VF_EXTRA', '')).strip()   # to try the checks on other builds (see DESIGN, Quietness)
    obj = os.path.join(out, 'obj')
    os.makedirs(obj, exist_ok=True)
    env = dict(os.environ, CC=cc)
    cmd = ['make', '-s', '-j8', '-f', os.path.join(VERIF, 'vf', 'regpt.mk'), 'REPO=' + repo, 'OUT=' + obj,
           'CUBAINC=' + os.path.join(VERIF, 'vf', 'cuba'), 'EXTRA=' + extra]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode: raise RuntimeError('build failed:\n' + r.stdout)
    pkg = os.path.join(out, 'pkg', 'pyregpt')
    os.makedirs(os.path.join(pkg, 'lib'), exist_ok=True)
    src = os.path.join(repo, 'pyregpt')
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ('tests', 'lib', '__pycache__')]
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(pkg, rel), exist_ok=True)
        for f in files:
            if f.endswith('.py'): shutil.copy(os.path.join(root, f), os.path.join(pkg, rel, f))
    shutil.copy(os.path.join(obj, 'regpt.so'), os.path.join(pkg, 'lib', 'regpt.so'))
    return os.path.join(out, 'pkg')


def deps(out):
    """A directory with links to the installed Hypothesis, to be used with the system's Python (the one
    whose NumPy and SciPy pyregpt is made for)."""
    d = os.path.join(out, 'deps')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(VTSITE):
        if f.split('-')[0].split('.')[0] in ('hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
                                             '_hypothesis_pytestplugin', 'sortedcontainers', 'attr', 'attrs', 'mpmath'):
            if not os.path.lexists(os.path.join(d, f)): os.symlink(os.path.join(VTSITE, f), os.path.join(d, f))
    return d


def set_env():
    for k, v in {'OPENBLAS_NUM_THREADS': '1', 'OMP_WAIT_POLICY': 'passive', 'OMP_DYNAMIC': 'false',
                 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'LC_ALL': 'C'}.items():
        os.environ[k] = v
    for k in ('OMP_NUM_THREADS', 'OMP_SCHEDULE', 'OMP_THREAD_LIMIT'): os.environ.pop(k, None)


# ---------------------------------------------------------------- access to the code under test

class Api(object):

    """Handed to check(): the package under test, its library, the Suave stand-in."""

    def __init__(self, pkgdir, workdir):
        self.pkgdir, self.workdir = pkgdir, workdir
        import pyregpt
        assert os.path.realpath(pyregpt.__file__).startswith(os.path.realpath(pkgdir)), pyregpt.__file__
        self.P = pyregpt
        self.sopath = os.path.join(os.path.dirname(os.path.abspath(pyregpt.__file__)), 'lib', 'regpt.so')
        self._lib = None

    @property
    def lib(self):
        if self._lib is None: self._lib = ctypes.CDLL(self.sopath, mode=ctypes.RTLD_LOCAL)
        return self._lib

    def suave_points(self, pts):
        import numpy as np
        pts = np.ascontiguousarray(pts, dtype='f8')
        self.lib.vf_suave_points(pts.ctypes.data_as(ctypes.c_void_p), ctypes.c_long(pts.shape[0]), ctypes.c_int(pts.shape[1]))
        self.lib.vf_suave_reset()

    def suave_values(self):
        """(ncalls, ndim, ncomp, array (ncalls, npoints, ncomp), (epsrel, epsabs))"""
        import numpy as np
        L = self.lib
        L.vf_suave_ncalls.restype = ctypes.c_long
        L.vf_suave_nvals.restype = ctypes.c_long
        nc, nv = L.vf_suave_ncalls(), L.vf_suave_nvals()
        out = np.zeros(max(nv, 1))
        L.vf_suave_values(out.ctypes.data_as(ctypes.c_void_p))
        last = (ctypes.c_int * 8)()
        lastd = (ctypes.c_double * 2)()
        L.vf_suave_last(last, lastd)
        ncomp = max(last[1], 1)
        return nc, last[0], last[1], out[:nv].reshape(max(nc, 1), -1, ncomp) if nv else None, tuple(lastd)


# ---------------------------------------------------------------- one case in its own process

def fork_call(func, args=(), stdout=None, cpu=CPU_LIMIT, cwd=None):
    """Runs func(*args) in a forked child. Returns ('ok', value), ('fail', text), ('crash', text), ('hang', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            fd = os.open(stdout or os.devnull, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            if cwd: os.chdir(cwd)
            try:
                res = ('ok', func(*args))
            except Violation as exc:
                res = ('fail', str(exc))
            except BaseException as exc:  # noqa: any exception on a valid case is a failure
                tb = traceback.format_exc().strip().split('\n')
                res = ('fail', '%s: %s | %s' % (type(exc).__name__, exc, ' / '.join(x.strip() for x in tb[-5:-1])))
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    with os.fdopen(r, 'rb') as f:
        deadline = time.time() + 5 * cpu
        while True:
            ready, _, _ = select.select([f], [], [], max(0.1, deadline - time.time()))
            if not ready:
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                break
            chunk = os.read(f.fileno(), 1 << 16)
            if not chunk: break
            buf += chunk
    _, status = os.waitpid(pid, 0)
    if buf:
        try: return pickle.loads(buf)
        except Exception: pass
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL): return ('hang', 'no result within %d CPU seconds (signal %d)' % (cpu, sig))
        return ('crash', 'killed by signal %d (%s)' % (sig, signal.Signals(sig).name))
    return ('crash', 'child ended with status %d and no result' % status)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Runner(object):

    def __init__(self, mod, pkgdir, workdir):
        self.mod, self.pkgdir, self.workdir = mod, pkgdir, workdir
        if pkgdir not in sys.path: sys.path.insert(0, pkgdir)
        import numpy  # noqa: loaded before forking
        import scipy.integrate  # noqa
        self.inline = getattr(mod, 'INLINE', False)
        self.api = None
        if not self.inline:
            try: import pyregpt  # noqa: importing does not load the library
            except Exception: pass     # reported by every case

    def _check(self, case):
        if self.inline: return self.mod.check(case, self)
        return self.mod.check(case, Api(self.pkgdir, self.workdir))

    def run(self, case):
        case = json.loads(canon(case))
        return fork_call(self._check, (case,), cwd=self.workdir, cpu=getattr(self.mod, 'CPU_LIMIT', CPU_LIMIT))


# ---------------------------------------------------------------- a shard: Hypothesis

def shard_main(mod, tier, seed, shard, nshards, pkgdir, workdir, outfile, budget):
    import warnings
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    warnings.simplefilter('ignore')
    runner = Runner(mod, pkgdir, workdir)
    t0 = time.time()
    stats = {'cases': 0, 'comparisons': 0, 'labels': {}, 'nontrivial': [], 'samples': [], 'failures': [], 'cut': False,
             'shrink_runs': 0}
    seen, failing = {}, {}
    state = {'first': None, 'shrinks': 0}
    max_shrinks = getattr(mod, 'MAX_SHRINKS', 150)

    def record(case, res):
        stats['cases'] += 1
        info = res[1] if res[0] == 'ok' else None
        if isinstance(info, dict):
            stats['comparisons'] += int(info.get('comparisons', 1))
            for lab in info.get('labels', []): stats['labels'][lab] = stats['labels'].get(lab, 0) + 1
            if info.get('nontrivial'): stats['nontrivial'].append(hashlib.sha1(canon(case).encode()).hexdigest()[:16])
            if len(stats['samples']) < 12 and info.get('nontrivial'): stats['samples'].append(case)

    def attempt(case):
        key = canon(case)
        if key in failing: return failing[key]
        if key in seen: return ('ok', None)
        if state['first'] is None:
            if time.time() - t0 > budget:
                stats['cut'] = True
                return ('ok', None)
        else:
            state['shrinks'] += 1
            stats['shrink_runs'] += 1
            if state['shrinks'] > max_shrinks or state['first'][1][0] == 'hang' or time.time() > state['stop']: return ('ok', None)
        res = runner.run(case)
        if state['first'] is None: record(case, res)
        if res[0] == 'ok': seen[key] = True
        else:
            failing[key] = res
            if state['first'] is None:
                state['first'] = (case, res)
                state['stop'] = time.time() + 60.
            state['last'] = (case, res)
        return res

    examples = getattr(mod, 'EXAMPLES', [])
    for i, case in enumerate(examples):
        if i % nshards == shard:
            res = attempt(case)
            if res[0] != 'ok':
                stats['failures'].append({'case': case, 'kind': res[0], 'text': res[1]})
                state['first'] = None
                break
    ncases = mod.CASES[tier] // nshards
    if not stats['failures'] and ncases > 0:
        hseed = int(hashlib.sha256(('%s/%d/%d' % (mod.ID, seed, shard)).encode()).hexdigest()[:12], 16)

        @hypothesis.seed(hseed)
        @settings(max_examples=ncases, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False)
        @given(mod.strategy(tier))
        def prop(case):
            case = json.loads(canon(case))
            res = attempt(case)
            if res[0] != 'ok':
                state['min'] = (case, res)
                raise Violation('broken')

        try:
            prop()
        except Violation:
            pass
        except BaseException as exc:
            if 'min' not in state:
                stats['error'] = traceback.format_exc()
        if state['first'] is not None:
            case, res = state.get('min', state['first'])
            stats['failures'].append({'case': case, 'kind': res[0], 'text': res[1], 'first': state['first'][0]})
    stats['wall'] = time.time() - t0
    with open(outfile, 'w') as f: json.dump(stats, f)


def load_mod(pid):
    return importlib.import_module('vf.props.' + pid.lower())


# ---------------------------------------------------------------- driver

def scratch():
    return tempfile.mkdtemp(prefix='vf-', dir='/tmp')


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                rec = json.loads(line)
                if rec.get('property') == pid and rec.get('status') == 'open': out.append(rec)
    return out


def run_cases_fresh(pid, cases, pkgdir, workdir):
    """Each case in a fresh interpreter (no Hypothesis, nothing shared with the shards)."""
    out = []
    for case in cases:
        p = os.path.join(workdir, 'replay-%d.json' % os.getpid())
        with open(p, 'w') as f: json.dump({'property': pid, 'case': case}, f)
        r = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'vf', 'run.py'), '--exec', p, pkgdir, workdir],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: out.append(tuple(json.loads(r.stdout.strip().split('\n')[-1])))
        except Exception: out.append(('crash', 'replay process failed: ' + r.stderr[-500:]))
    return out


def main_check(pid, tier, seed):
    set_env()
    t0 = time.time()
    work = scratch()
    try:
        sys.path.insert(0, deps(work))
        return _main_check(load_mod(pid), pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def violation(pid, rec, note=''):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (pid, hashlib.sha1(canon(rec['case']).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f: json.dump({'property': pid, 'case': rec['case'], 'failure': rec['text'], 'kind': rec['kind']}, f, indent=1)
    print('%s: %s%s' % (rec['kind'], rec['text'][:1500], note))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return path


def _main_check(mod, pid, tier, seed, work, t0):
    try:
        pkgdir = build(work)
    except RuntimeError as exc:
        # the tree does not build: nothing can be said to hold
        print(str(exc)[-3000:])
        rec = {'case': {'build': True}, 'kind': 'build', 'text': 'the sources do not build'}
        violation(pid, rec)
        write_evidence(mod, pid, tier, seed, [], 1, t0, extra={'build': 'failed'})
        return 1
    nshards = getattr(mod, 'SHARDS', NSHARDS)
    prep = getattr(mod, 'prepare', None)
    if prep is not None: prep(work, pkgdir)
    budget = {'quick': 420., 'thorough': 720.}[tier]
    procs = []
    for i in range(nshards):
        out = os.path.join(work, 'shard%d.json' % i)
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                shard_main(mod, tier, seed, i, nshards, pkgdir, work, out, budget)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(2)
            os._exit(0)
        procs.append((pid_, out))
    shards, errors = [], []
    for p, out in procs:
        os.waitpid(p, 0)
        try: shards.append(json.load(open(out)))
        except Exception: errors.append(out)
    status = 0
    fails = sorted([f for s in shards for f in s['failures']], key=lambda f: len(canon(f['case'])))
    confirmed, unconfirmed = [], []
    for rec in fails[:3]:
        n = 1 if rec['kind'] == 'hang' else 3
        res = run_cases_fresh(pid, [rec['case']] * n, pkgdir, work)
        if all(r[0] != 'ok' for r in res):
            rec['kind'], rec['text'] = res[-1][0], res[-1][1]
            confirmed.append(rec)
            break
        # not every replay fails: a race or a dependence on memory contents. Any further failure settles it.
        res += run_cases_fresh(pid, [rec['case']] * getattr(mod, 'RETRIES', 12), pkgdir, work)
        bad = [r for r in res if r[0] != 'ok']
        if len(bad) >= 2:
            rec['kind'], rec['text'] = bad[-1][0], bad[-1][1] + ' [%d of %d replays fail]' % (len(bad), len(res))
            confirmed.append(rec)
            break
        if rec.get('first') is not None and rec['first'] != rec['case']:
            alt = dict(rec, case=rec['first'])
            res = run_cases_fresh(pid, [alt['case']] * 3, pkgdir, work)
            if all(r[0] != 'ok' for r in res):
                alt['kind'], alt['text'] = res[-1][0], res[-1][1]
                confirmed.append(alt)
                break
        unconfirmed.append(rec)
    for k in known_findings(pid):
        res = run_cases_fresh(pid, [k['case']], pkgdir, work)[0]
        if res[0] != 'ok': print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if confirmed:
        violation(pid, confirmed[0])
        status = 1
    for rec in unconfirmed: print('note: one failure did not reproduce and is not reported: %s %s' % (canon(rec['case'])[:400], rec['text'][:400]))
    for s in shards:
        if 'error' in s: errors.append(s['error'])
    if errors and not confirmed:
        print('error of the check itself: %s' % '\n'.join(map(str, errors)))
        write_evidence(mod, pid, tier, seed, shards, 0, t0, extra={'errors': len(errors)})
        return 2
    write_evidence(mod, pid, tier, seed, shards, len(confirmed), t0, extra={'unconfirmed': len(unconfirmed)})
    ev = sum(s['cases'] for s in shards)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s' % (pid, tier, seed, ev,
          len(set(x for s in shards for x in s['nontrivial'])), time.time() - t0, 'VIOLATION' if status else 'ok'))
    return status


def write_evidence(mod, pid, tier, seed, shards, nviol, t0, extra=None):
    labels = {}
    for s in shards:
        for k, v in s['labels'].items(): labels[k] = labels.get(k, 0) + v
    samples = []
    for s in shards: samples += s['samples'][-1:]
    cov = {'evaluations': sum(s['cases'] for s in shards),
           'distinct_nontrivial': len(set(x for s in shards for x in s['nontrivial'])),
           'rule': mod.RULE, 'samples': samples[:4],
           'comparisons': sum(s['comparisons'] for s in shards),
           'labels': dict(sorted(labels.items())),
           'shrink_runs': sum(s.get('shrink_runs', 0) for s in shards),
           'cut_by_time_budget': any(s.get('cut') for s in shards),
           'directed_examples': len(getattr(mod, 'EXAMPLES', []))}
    cov.update(extra or {})
    rec = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
           'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f: json.dump(rec, f, indent=1, default=str)
