"""Memory and threads: no access outside an array, none freed before, none read before it is written, none kept for ever, no race."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

from vf import cfg, core, gen
from vf.core import Violation

ID = 'C19'
RULE = ('a case is a script of calls of the C library (tables of 2 to 60 points replaced and freed, wavenumbers, precision, runs repeated on several threads, look-ups, spectra given), every array in a heap '
        'block of its exact size, output arrays uninitialised; run under AddressSanitizer and UndefinedBehaviorSanitizer with accounting of what stays allocated, MemorySanitizer (one thread), and, '
        'with several threads, ThreadSanitizer; non-trivial: at least one run with at least 2 wavenumbers')
CASES = {'quick': 640, 'thorough': 8000}
ASSUMPTIONS = ['arrays given to the library are valid until replaced', 'k > 0, tables of at least 2 points', 'a sanitizer that cannot be built or started here is left out (see labels)']
INLINE = True
KINDS = ['spectrum_1loop', 'spectrum_2loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']
Q = [n for n in cfg.DEFAULTS if n.endswith('_q')]
MU = [n for n in cfg.DEFAULTS if n.endswith('_mu')]
UV = ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']


def prepare(work, pkgdir):
    out = os.path.join(work, 'san')
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['make', '-k', '-s', '-j8', '-f', os.path.join(core.VERIF, 'vf', 'san', 'san.mk'), 'REPO=' + core.REPO, 'OUT=' + out, 'VERIF=' + core.VERIF],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # those that do not even run an empty script here are left out
    for v in ('asan', 'msan', 'tsan'):
        p = os.path.join(out, v)
        if not os.path.exists(p):
            print('note: %s is not available here: %s' % (v, r.stdout.strip()[-200:]))
            continue
        t = start(out, v, 'table 3 0.01 0.1 1 1 2 3\n', 60)
        if t[0] != 0:
            print('note: %s does not start here: %s' % (v, t[1][-200:]))
            os.unlink(p)


def start(out, variant, script, timeout=100):
    env = dict(os.environ, OMP_WAIT_POLICY='passive', ASAN_OPTIONS='detect_leaks=0:exitcode=92:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=93',
               MSAN_OPTIONS='exitcode=94', TSAN_OPTIONS='exitcode=95:halt_on_error=1')
    cwd = os.path.join(out, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    try: r = subprocess.run([os.path.join(out, variant)], input=script, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired: return -1, 'no answer within %d s' % timeout
    return r.returncode, r.stderr


@st.composite
def small_precision(draw):
    out = []
    for name in Q + MU:
        lo, hi = draw(st.sampled_from([(1., -1.), (1., -1.), (-1., -1.), (1e-3, 1.), (0.05, 0.3), (1e-5, 30.), (0.1, 0.1)]))
        out.append([name, draw(st.integers(1, 6)), lo, hi, draw(st.sampled_from(['test', 'test', 'lin', 'poly']))])
    return out


OPS = ['run'] * 5 + ['terms'] * 3 + ['table', 'table', 'lookup', 'lookup', 'sigmad2', 'prec', 'uv', 'combine', 'runspectrum', 'runB', 'gl', 'poly', 'verbosity']


@st.composite
def operation(draw, kinds):
    what = draw(st.sampled_from(OPS))
    ks = st.lists(gen.ktoken(), min_size=draw(st.sampled_from([0, 1, 2, 4])), max_size=6)
    if what == 'run': return [what, draw(st.sampled_from(kinds)), draw(st.sampled_from(['delta', 'theta'])), draw(st.sampled_from(['delta', 'theta'])), draw(st.sampled_from([1, 0, 2, 3, 8])), draw(st.sampled_from([1, 1, 4]))]
    if what == 'terms': return [what, draw(st.sampled_from(kinds)), draw(ks)]
    if what == 'table': return [what, draw(gen.tables(nmin=2, nmax=draw(st.sampled_from([2, 4, 16, 60]))))]
    if what == 'lookup': return [what, draw(ks), draw(st.integers(0, 1))]
    if what == 'sigmad2': return [what, draw(ks), draw(st.sampled_from([0.5, 1., 20., 0.01]))]
    if what == 'prec':
        name = draw(st.sampled_from(Q + MU + [u + '_pk_lin' for u in UV]))
        return [what, name, draw(st.integers(1, 7)), 1., -1., draw(st.sampled_from(['lin', 'poly', 'test']))]
    if what == 'uv': return [what, draw(st.sampled_from(UV)), draw(st.sampled_from([0.5, 1., 20., 0.01]))]
    if what == 'combine': return [what, draw(st.sampled_from(kinds))]
    if what == 'runspectrum': return [what, 'delta', draw(st.sampled_from(['delta', 'theta'])), draw(st.sampled_from([1, 2, 4])), draw(ks)]
    if what == 'runB': return [what, draw(st.sampled_from([1, 2, 4])), draw(gen.tables(nmin=2, nmax=20))]
    if what == 'gl': return [what, draw(st.integers(1, 40))]
    if what == 'poly': return [what, draw(st.integers(1, 8)), draw(gen.fl(-1., 9., 3))]
    return [what, draw(st.sampled_from(['quiet', 'info', 'debug']))]


@st.composite
def strategy_(draw):
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True))
    ops = [['table', draw(gen.tables(nmin=2, nmax=draw(st.sampled_from([2, 4, 16, 60]))))]]
    v = draw(st.sampled_from([None, None, 'info', 'debug']))
    if v: ops.append(['verbosity', v])
    for kd in kinds: ops.append(['terms', kd, draw(st.lists(gen.ktoken(), min_size=draw(st.sampled_from([0, 1, 2, 4])), max_size=9))])
    for i in range(draw(st.integers(1, 9))): ops.append(draw(operation(kinds)))
    return {'prec': draw(small_precision()), 'ops': ops}


def strategy(tier):
    return strategy_()


def r(x): return repr(float(x))


def nums(x): return ' '.join(r(v) for v in x)


def script(case, times=True):
    out = ['prec %s %d %s %s %s' % (p[0], p[1], r(p[2]), r(p[3]), p[4]) for p in case['prec']]
    tk, ready = None, {}
    threads, runs = 1, 0
    table = None
    for op in case['ops']:
        what = op[0]
        if what == 'table':
            t = op[1]
            if t['n'] == 2: tk, tp = np.array([t['kmin'], t['kmax']]), np.array([t['A'], t['A'] * 2.])
            else: tk, tp = gen.table(t)
            out.append('table %d %s %s' % (len(tk), nums(tk), nums(tp)))
            continue
        look = tk if len(tk) > 2 else np.array([tk[0], np.sqrt(tk[0] * tk[1]), tk[1]])
        if what == 'terms':
            k = gen.kvalues(look, op[2])
            k = np.clip(k, look[0] * 0.01, look[-1] * 30.)
            out.append('terms %s %d %s' % (op[1], len(k), nums(k)))
            ready[op[1]] = len(k)
        elif what == 'run':
            if op[1] not in ready: continue
            out.append('run %s %s %s %d %d' % (op[1], op[2], op[3], op[4], op[5] if times else 1))
            threads = max(threads, op[4] or 4)
            runs += ready[op[1]] >= 2
            if op[1] == 'B': ready.pop('spectrum_1loop', None)   # run on the way, with arrays of its own
        elif what == 'lookup': out.append('lookup %d %d %s' % (len(op[1]), op[2], nums(gen.kvalues(look, op[1]))))
        elif what == 'sigmad2': out.append('sigmad2 %d %s %s' % (len(op[1]), r(op[2]), nums(gen.kvalues(look, op[1]))))
        elif what == 'prec': out.append('prec %s %d %s %s %s' % (op[1], op[2], r(op[3]), r(op[4]), op[5] if not (op[1].endswith('pk_lin') and op[5] == 'test') else 'lin'))
        elif what == 'uv': out.append('uv %s %s' % (op[1], r(op[2])))
        elif what == 'combine':
            # only of what has been run
            if op[1] in ('spectrum_1loop', 'spectrum_2loop') and op[1] in ready: out += ['run %s delta theta 1 1' % op[1], 'combine ' + op[1]]
        elif what == 'runspectrum':
            out.append('runspectrum %s %s %d %d %s' % (op[1], op[2], op[3], len(op[4]), nums(np.clip(gen.kvalues(look, op[4]), look[0] * 0.01, look[-1] * 30.))))
            threads = max(threads, op[3])
            ready.pop('spectrum_1loop', None)
        elif what == 'runB':
            if 'B' not in ready: continue
            t = op[2]
            bk, bp = gen.table(t) if t['n'] > 2 else (np.array([t['kmin'], t['kmax']]), np.array([1., 2.]))
            out.append('runB %d %d %s %s %s' % (op[1], len(bk), nums(bk), nums(bp), nums(bp * 0.5)))
            threads = max(threads, op[1])
        elif what == 'gl': out.append('gl %d -1.0 2.0' % op[1])
        elif what == 'poly': out.append('poly %d %s %s %s' % (op[1], r(op[2]), nums(range(op[1])), nums(np.arange(op[1])**2 % 5)))
        elif what == 'verbosity': out.append('verbosity ' + op[1])
    return '\n'.join(out) + '\n', threads, runs


def check(case, runner):
    out = os.path.join(runner.workdir, 'san')
    labels = []
    runs = script(case)[2]
    for v in ('asan', 'msan', 'tsan'):
        if not os.path.exists(os.path.join(out, v)):
            labels.append('no ' + v)
            continue
        text, threads, runs = script(case, times=v == 'asan')
        if v == 'tsan' and threads <= 1: continue
        code, err = start(out, v, text)
        if code == 90: raise RuntimeError('the driver does not understand: %s' % err)
        if code != 0:
            lines = [x.strip() for x in err.split('\n')]
            keep = [x for x in lines if 'ERROR' in x or 'WARNING' in x or 'runtime error' in x or x.startswith('#') or ' of size ' in x]
            raise Violation('%s, exit status %d: %s' % (v, code, ' | '.join(keep[:12])[:1200] or err[-300:]))
        labels.append(v)
    return {'nontrivial': runs > 0, 'labels': labels, 'comparisons': len(labels)}
