"""What is printed and written, and that it changes nothing else."""
import ctypes
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import core, gen
from vf.core import Violation
from vf.props import c17

ID = 'C22'
RULE = ('a case is a history of verbosity settings, instances created, spectra and wavenumbers given, runs, look-ups, settings and clears; after each operation what came out on standard output and '
        'error and the files in the working directory are looked at, and the columns are compared with those of the same history, all quiet; '
        'non-trivial: a run while quiet was asked for after another mode or before another instance was created, or a run in another mode')
CASES = {'quick': 1000, 'thorough': 20000}
ASSUMPTIONS = ['verbosity belongs to the library: it is that last asked for, by any instance, until clear, which makes it that of the default, info']
CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
MODES = ['quiet', 'info', 'debug']
DEBUG = {'debug_terms_spectrum_1loop.dat': ['k', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
         'debug_terms_spectrum_2loop.dat': ['k', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree']}
OPS = ['run'] * 5 + ['verb'] * 4 + ['make', 'make', 'lin', 'terms', 'terms', 'look', 'prec', 'clear', 'deepcopy', 'pad', 'pk', 'spectrumlin']


@st.composite
def operation(draw):
    what, i = draw(st.sampled_from(OPS)), draw(st.integers(0, 1))
    if what == 'make': return [what, i, draw(st.sampled_from(CLS))]
    if what == 'verb': return [what, i, draw(st.sampled_from(['quiet', 'quiet', 'info', 'debug']))]
    if what == 'lin': return [what, i, draw(gen.tables(nmax=12, rough=False))]
    if what == 'terms': return [what, i, draw(st.lists(gen.fl(0.05, 0.95, 3), min_size=draw(st.sampled_from([0, 1, 2])), max_size=draw(st.sampled_from([3, 15]))))]
    if what == 'run': return [what, i, draw(st.sampled_from(['delta', 'theta'])), draw(st.sampled_from(['delta', 'theta'])), draw(st.sampled_from([1, 2, 0]))]
    return [what, i]


@st.composite
def strategy_(draw):
    ops = [['make', 0, draw(st.sampled_from(CLS))]]
    if draw(st.booleans()): ops.append(['verb', 0, draw(st.sampled_from(MODES))])
    ops += [['lin', 0, draw(gen.tables(nmax=12, rough=False))], ['terms', 0, draw(st.lists(gen.fl(0.05, 0.95, 3), min_size=1, max_size=4))]]
    for i in range(draw(st.integers(1, 9))): ops.append(draw(operation()))
    return {'ops': ops}


def strategy(tier): return strategy_()


def history(api, case, quiet, cwd=None):
    """Yields (number, operation, mode, instances, what was run)."""
    api.suave_points(c17.PTS)
    live, mode = {}, 'info'
    for num, op in enumerate(case['ops']):
        what, i = op[0], op[1]
        ran = None
        if what == 'make':
            live[i] = getattr(api.P, op[2])()
            if quiet: live[i].set_verbosity('quiet')
            for name, n in c17.SETS[op[2]].items(): live[i].set_precision(name, n=min(n, 4))
        elif i not in live: continue
        s = live[i]
        name = type(s).__name__
        ready = hasattr(s, 'spectrum_lin') and 'k' in s
        if what == 'verb':
            mode = op[2]
            if not quiet: s.set_verbosity(op[2])
        elif what == 'clear':
            mode = 'info'
            s.clear()
            if quiet: s.set_verbosity('quiet')
            for m in c17.SETS.values():
                for x, n in m.items(): s.set_precision(x, n=min(n, 4))
        elif what == 'lin': s.set_pk_lin(*gen.table(op[2]))
        elif what == 'terms': s.set_terms(0.01 * 30.**np.array(op[2]))
        elif what == 'run' and ready:
            s.run_terms(**({'a': op[2], 'b': op[3], 'nthreads': op[4]} if name.startswith('Spectrum') else {'nthreads': op[4]}))
            ran = name
        elif what == 'look' and ready:
            s.find_pk_lin(s.k)
            s.calc_running_sigmad2(s.k)
        elif what == 'prec': s.set_precision('gamma1_1loop_q', n=3)
        elif what == 'deepcopy': s.deepcopy()
        elif what == 'pk' and ready:
            if name.startswith('Spectrum'): s.pk(Dgrowth=0.8)
        elif what == 'pad' and ready and len(s) and name.startswith('Spectrum'): s.pad_k(np.concatenate([s.k[:1] * 0.5 if s.k[0] == min(s.k) and s.k[-1] == max(s.k) else [], s.k]))
        elif what == 'spectrumlin': api.P.SpectrumLin(k=np.array([0.1, 0.2]), pk=np.array([1., 2.])).sigmav()
        yield num, op, mode, live, ran


def columns(live):
    return {(i, f): np.array(s[f]) for i, s in live.items() for f in s}


def silent(api, case):
    return [columns(live) for num, op, mode, live, ran in history(api, case, True)]


def check(case, api):
    res = core.fork_call(silent, (core.Api(api.pkgdir, api.workdir), case))
    if res[0] != 'ok': raise Violation('the same history, quiet: %s' % (res,))
    want = res[1]
    work = tempfile.mkdtemp(dir=api.workdir)
    try: return watch(case, api, want, work)
    finally:
        os.chdir(api.workdir)
        shutil.rmtree(work, ignore_errors=True)


def watch(case, api, want, work):
    cwd = os.path.join(work, 'cwd')
    os.mkdir(cwd)
    os.chdir(cwd)
    out = os.path.join(work, 'out')
    fd = os.open(out, os.O_RDWR | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    libc = ctypes.CDLL(None)
    pos, n, nontrivial, labels, seen = 0, 0, False, set(), set()
    for step, (num, op, mode, live, ran) in enumerate(history(api, case, False)):
        libc.fflush(None)
        text = open(out, errors='replace').read()
        new, pos = text[pos:], len(text)
        here = 'operation %d (%r), verbosity %s' % (num, op, mode)
        if mode == 'quiet' and op[0] not in ('verb', 'clear') and new: raise Violation('%s: printed %r' % (here, new[:200]))
        if mode == 'info' and ran and not new.strip(): raise Violation('%s: nothing printed' % here)
        if mode == 'info' and ran:
            for word in ('calculation', 'time'):
                if word not in new.lower(): raise Violation('%s: nothing printed about %s, but %r' % (here, {'calculation': 'what is computed', 'time': 'the time it took'}[word], new[:200]))
            if len(live[op[1]]) and 'percent' not in new and '%' not in new: raise Violation('%s: nothing printed about progress, but %r' % (here, new[:200]))
            if ran.startswith('Spectrum') and not all(f in new for f in op[2:4]): raise Violation('%s: nothing printed about the fields, but %r' % (here, new[:200]))
        if mode == 'info' and op[0] == 'terms' and op[1] in live and not new.strip(): raise Violation('%s: nothing printed' % here)
        files = sorted(os.listdir(cwd))
        if files and mode != 'debug': raise Violation('%s: wrote %r' % (here, files))
        if mode == 'debug' and ran in ('Spectrum1Loop', 'Spectrum2Loop'):
            f = 'debug_terms_spectrum_%sloop.dat' % ran[8]
            if f not in files: raise Violation('%s: no file %s' % (here, f))
            s = live[op[1]]
            rows = [[float(x) for x in line.split()] for line in open(f)]
            cols = np.array([np.array(s[c]) for c in DEBUG[f]]).T
            if len(rows) != len(s): raise Violation('%s: %s has %d rows for %d wavenumbers' % (here, f, len(rows), len(s)))
            for i, row in enumerate(rows):
                if len(row) != len(DEBUG[f]) or not np.allclose(row, cols[i], rtol=1e-12, atol=0.6e-6, equal_nan=True): raise Violation('%s: row %d of %s is %r, the columns %r' % (here, i, f, row, cols[i].tolist()))
            n += cols.size
        if mode == 'debug' and ran in ('B1Loop', 'B2Loop'):
            f, s = 'debug_spectra_B.dat', live[op[1]]
            if f not in files: raise Violation('%s: no file %s' % (here, f))
            tk, tp = s.spectrum_lin['k'], s.spectrum_lin['pk']
            rows = np.array([[float(x) for x in line.split()] for line in open(f)])
            cols = np.array([tk, tp, tp] if ran == 'B1Loop' else [tk, s.spectrum_1loop_dt.pk(), s.spectrum_1loop_tt.pk()]).T
            if rows.shape != cols.shape or not np.allclose(rows, cols, rtol=1e-12, atol=0.6e-6, equal_nan=True): raise Violation('%s: %s is %r, the spectra %r' % (here, f, rows.tolist(), cols.tolist()))
            n += cols.size
        for f in files: os.unlink(os.path.join(cwd, f))
        cols = columns(live)
        if sorted(cols) != sorted(want[step]): raise Violation('%s: columns %r, when all is quiet %r' % (here, sorted(cols), sorted(want[step])))
        for key, v in cols.items():
            w = want[step][key]
            n += v.size
            if v.shape != w.shape or not np.allclose(v, w, rtol=1e-10, atol=0., equal_nan=True): raise Violation('%s: column %s of instance %d is %r, when all is quiet %r' % (here, key[1], key[0], v.tolist(), w.tolist()))
        if ran:
            labels.add(mode)
            nontrivial = nontrivial or mode != 'quiet' or len(seen) > 0
        if op[0] in ('verb', 'make') and step: seen.add(op[0])
    return {'nontrivial': nontrivial, 'labels': sorted(labels), 'comparisons': n}
