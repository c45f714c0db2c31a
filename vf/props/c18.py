"""Several instances, several spectra, any history: each instance keeps to its own."""
import gc
import json

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref
from vf.core import Violation
from vf.props import c17

ID = 'C18'
RULE = ('a case is a history over up to four instances of any kind: creation, spectra given in several ways, wavenumbers, runs, look-ups, copies, deletions, spectra rescaled or changed in place, runs on views of rows, arrays of the user overwritten '
        'afterwards, columns replaced; after every operation all columns of all instances are compared with those of a process in which nothing else was done; '
        'non-trivial: at least two instances have run, with different spectra or of the same kind')
CASES = {'quick': 1800, 'thorough': 30000}
ASSUMPTIONS = ['settings and the number of threads are set once, before', 'a run is asked only of instances that have a linear spectrum and wavenumbers']
CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
TABLES = [{'n': 6, 'kmin': 1e-3, 'kmax': 2., 'A': 1000., 'ns': 0.9, 'k0': 0.05, 'm': 1., 'spacing': 'log'},
          {'n': 11, 'kmin': 2e-3, 'kmax': 1., 'A': 100., 'ns': 0.5, 'k0': 0.02, 'm': 1.2, 'spacing': 'lin'},
          {'n': 25, 'kmin': 5e-4, 'kmax': 4., 'A': 3000., 'ns': 1., 'k0': 0.1, 'm': 1.5, 'spacing': 'log'},
          {'n': 6, 'kmin': 1e-3, 'kmax': 2., 'A': 2000., 'ns': 0.7, 'k0': 0.03, 'm': 1.1, 'spacing': 'log'}]    # wavenumbers of the first
KS = [[0.1], [0.02, 0.3, 0.11], [0.3, 0.05, 0.05], [0.01, 0.03, 0.1, 0.2, 0.35, 0.9], [0.15, 0.4, 0.06]]
FIELDS = ['delta', 'theta']


HOW = ['array', 'list', 'spectrum', 'strided', 'shared']
OPS = ['run'] * 6 + ['make', 'lin', 'lin', 'terms', 'deepcopy', 'del', 'find', 'overwrite', 'replace', 'pk', 'slice', 'interp', 'scale', 'newpk', 'view', 'view']


@st.composite
def operation(draw, m, kinds):
    what, i = draw(st.sampled_from(OPS)), draw(st.sampled_from(list(range(m))))
    if what == 'run': return [what, i, draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.sampled_from([1, 2, 4]))]
    if what == 'make': return [what, i, draw(st.sampled_from(kinds)), draw(st.sampled_from([0, 1, 2, 0, 3])), draw(st.sampled_from(HOW)), draw(st.integers(0, 4))]
    if what == 'lin': return [what, i, draw(st.sampled_from([0, 1, 2, 0, 3])), draw(st.sampled_from(HOW))]
    if what == 'terms': return [what, i, draw(st.integers(0, 4)), draw(st.sampled_from(['array', 'list', 'strided']))]
    if what == 'view': return [what, i, draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(1, 3))]
    if what in ('deepcopy', 'slice'): return [what, i, draw(st.integers(0, 3))]
    if what == 'find': return [what, i, draw(st.integers(0, 4)), draw(st.booleans())]
    if what == 'replace': return [what, i, draw(st.sampled_from(['C', 'strided', 'list']))]
    if what == 'overwrite': return [what]
    return [what, i]


@st.composite
def strategy_(draw):
    m = draw(st.sampled_from([2, 3, 2, 4, 1]))
    # most histories are over few kinds, so that the instances share what the library has one of
    kinds = draw(st.lists(st.sampled_from(CLS), min_size=1, max_size=3))
    ops = [['make', i, draw(st.sampled_from(kinds)), draw(st.sampled_from([0, 1, 2, 0, 3])), draw(st.sampled_from(HOW)), draw(st.integers(0, 4))] for i in range(m)]
    for i in range(draw(st.integers(1, 14))): ops.append(draw(operation(m, kinds)))
    return {'ops': ops}


def strategy(tier):
    return strategy_()


EXAMPLES = [{'ops': [['make', 0, c, 0, 'array', 1], ['make', 1, c, 1, 'array', 4], ['run', 0, 0, 1, 1], ['run', 1, 1, 1, 1], ['run', 0, 0, 1, 2]]} for c in CLS]


def setup(api):
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    for sets in c17.SETS.values():
        for name, n in sets.items(): s.set_precision(name, n=min(n, 6))
    api.suave_points(c17.PTS)


def table(i): return gen.table(TABLES[i])


def lone(api, cls, t, kk, a, b):
    """The calculation alone in its process."""
    setup(api)
    s = getattr(api.P, cls)()
    s.set_pk_lin(*table(t))
    s.set_terms(np.array(KS[kk]))
    s.run_terms(**({'a': a, 'b': b, 'nthreads': 1} if cls.startswith('Spectrum') else {'nthreads': 1}))
    return {f: np.array(s[f]) for f in s.FIELDS}


def same(what, a, b):
    a = np.asarray(a)
    if a.shape != b.shape: raise Violation('%s has the shape %r, expected %r' % (what, a.shape, b.shape))
    scale = np.max(np.abs(b), axis=-1, keepdims=True, initial=0., where=np.isfinite(b)) if b.ndim > 1 else np.abs(b)
    bad = ~(np.abs(a - b) <= 1e-9 * scale) & ~(a == b) & ~(np.isnan(a) & np.isnan(b))
    if bad.any():
        x = np.argwhere(bad)[0]
        raise Violation('%s%s is %r, %r when alone' % (what, x.tolist(), a[tuple(x)], b[tuple(x)]))
    return a.size


def check(case, api):
    memo = {}

    def expected(key):
        if key not in memo:
            res = core.fork_call(lone, (core.Api(api.pkgdir, api.workdir),) + key)
            if res[0] != 'ok': raise Violation('%r alone: %s' % (key, res))
            memo[key] = res[1]
        return memo[key]

    # everything expected is computed before the library is loaded here
    todo, model = [], {}
    for op in case['ops']:
        if op[0] == 'make': model[op[1]] = [op[2], op[3], op[5]]
        elif op[0] == 'lin' and op[1] in model: model[op[1]][1] = op[2]
        elif op[0] == 'terms' and op[1] in model: model[op[1]][2] = op[2]
        elif op[0] == 'deepcopy' and op[1] in model: model[op[2]] = list(model[op[1]])
        elif op[0] == 'slice' and op[1] in model: model[op[2]] = [model[op[1]][0], None, None]
        elif op[0] == 'scale' and op[1] in model: model[op[1]][1] = None
        elif op[0] == 'newpk' and op[1] in model and model[op[1]][1] in (0, 3): model[op[1]][1] = 3 - model[op[1]][1]
        elif op[0] == 'del': model.pop(op[1], None)
        elif op[0] in ('run', 'view') and op[1] in model and None not in model[op[1]]: expected((model[op[1]][0], model[op[1]][1], model[op[1]][2], FIELDS[op[2]], FIELDS[op[3]]))
    setup(api)
    live, state, mine, done, n, shared = {}, {}, [], set(), 0, {}

    def give(s, t, how):
        tk, tp = (np.array(x) for x in table(t))
        if how == 'list': s.set_pk_lin(list(tk), list(tp))
        elif how == 'array':
            mine.extend([tk, tp])
            s.set_pk_lin(tk, tp)
        else:
            lin = api.P.SpectrumLin()
            if how == 'strided':
                big = np.full((len(tk), 2), -1e30)
                big[:, 0], big[:, 1] = tk, tp
                lin['k'], lin['pk'] = big[:, 0], big[:, 1]
            elif how == 'shared': lin['k'], lin['pk'] = shared.setdefault(t % 3, tk), tp     # one array of wavenumbers for several spectra
            else: lin['k'], lin['pk'] = tk, tp
            s.set_spectrum_lin(lin)

    def terms(s, kk, how='array'):
        k = np.array(KS[kk])
        if how == 'list': s.set_terms(list(k))
        elif how == 'strided': s.set_terms(np.array([k, k]).T[:, 1])
        else:
            mine.append(k)
            s.set_terms(k)

    for num, op in enumerate(case['ops']):
        what, i = op[0], op[1] if len(op) > 1 else None
        if what == 'make':
            live[i] = getattr(api.P, op[2])()
            give(live[i], op[3], op[4])
            terms(live[i], op[5])
            state[i] = {'cls': op[2], 't': op[3], 'k': op[5], 'res': None}
        elif what == 'overwrite':
            for x in mine: x[...] = -7.
            del mine[:]
        elif i not in live: continue
        elif what == 'lin':
            give(live[i], op[2], op[3])
            state[i]['t'] = op[2]
        elif what == 'terms':
            terms(live[i], op[2], op[3])
            state[i].update(k=op[2], res=None, part=None)
        elif what == 'run':
            s = state[i]
            if s['t'] is None or s['k'] is None: continue
            live[i].run_terms(**({'a': FIELDS[op[2]], 'b': FIELDS[op[3]], 'nthreads': op[4]} if s['cls'].startswith('Spectrum') else {'nthreads': op[4]}))
            s['res'] = expected((s['cls'], s['t'], s['k'], FIELDS[op[2]], FIELDS[op[3]]))
            done.add((i, s['cls'], s['t']))
        elif what == 'view':
            # the first rows, as views, are an instance by themselves
            s, m = live[i], op[4]
            if state[i]['t'] is None or state[i]['k'] is None or m >= len(s): continue
            rest = {f: np.array(s[f][m:]) for f in s.FIELDS}
            part = s[:m]
            part.set_spectrum_lin(s.spectrum_lin)
            part.run_terms(**({'a': FIELDS[op[2]], 'b': FIELDS[op[3]], 'nthreads': 2} if state[i]['cls'].startswith('Spectrum') else {'nthreads': 2}))
            want = expected((state[i]['cls'], state[i]['t'], state[i]['k'], FIELDS[op[2]], FIELDS[op[3]]))
            for f in s.FIELDS:
                same('operation %d (%r): column %s of the first rows' % (num, op, f), part[f], want[f][:m])
                same('operation %d (%r): column %s of the other rows' % (num, op, f), s[f][m:], rest[f])
            if state[i]['res'] is not None: state[i]['res'] = {f: np.array(s[f]) for f in s.FIELDS}
        elif what == 'scale':
            if not hasattr(live[i], 'spectrum_lin'): continue
            live[i].spectrum_lin.rescale(1.5)
            state[i]['t'] = None
        elif what == 'newpk':
            if state[i]['t'] not in (0, 3): continue
            state[i]['t'] = 3 - state[i]['t']
            live[i].spectrum_lin['pk'] = np.array(table(state[i]['t'])[1])
        elif what == 'deepcopy':
            if op[2] != i:
                live[op[2]], state[op[2]] = live[i].deepcopy(), dict(state[i])
        elif what == 'slice':
            if op[2] != i:
                live[op[2]] = live[i][np.arange(len(live[i])) % 2 == 0]
                st_ = state[i]
                state[op[2]] = {'cls': st_['cls'], 't': None, 'k': None, 'res': None if st_['res'] is None else {f: v[::2] for f, v in st_['res'].items()}}
        elif what == 'del':
            del live[i], state[i]
            gc.collect()
            np.full(500, 3.3e33)
        elif what == 'find':
            if state[i]['t'] is None: continue
            k = np.array(KS[op[2]])
            got, (tk, tp) = live[i].find_pk_lin(k, interpol='poly' if op[3] else 'lin'), table(state[i]['t'])
            want, amp = ref.find_pk(tk, tp, k, op[3], cond=True)
            if not (np.abs(got - want) <= 1e-9 * amp + 1e-300).all(): raise Violation('operation %d: find_pk_lin(%r) = %r, expected %r' % (num, k, got, want))
            want = ref.sigmad2(tk, tp, k, 0.5)
            got = live[i].calc_running_sigmad2(k)
            if not np.allclose(got, want, rtol=1e-10, atol=1e-300): raise Violation('operation %d: calc_running_sigmad2(%r) = %r, expected %r' % (num, k, got, want))
        elif what == 'replace':
            s = live[i]
            if state[i]['t'] is None: continue
            for f in s.FIELDS:
                if f == 'k': continue
                v = np.array(s[f])
                if op[2] == 'strided':
                    w = np.full(v.shape + (2,), np.nan)
                    w[..., 0] = v
                    s[f] = w[..., 0]
                elif op[2] == 'C' or f == 'pk': s[f] = v
                else: s[f] = np.array(v.tolist())
        elif what in ('pk', 'interp'):
            if state[i]['res'] is None: continue
            s = live[i]
            if what == 'pk' and hasattr(s, 'pk'): s.pk(Dgrowth=0.7)
            if what == 'interp' and state[i]['cls'].startswith('Spectrum'): s.pk_interp([0.1], Dgrowth=1.2)
        for j, s in live.items():
            res = state[j]['res']
            if res is None: continue
            for f in s.FIELDS:
                n += same('operation %d (%r): column %s of instance %d (%s)' % (num, op, f, j, state[j]['cls']), s[f], res[f])
    ran = [d[1:] for d in done]
    return {'nontrivial': len(set(d[0] for d in done)) >= 2 and (len(set(t for _, t in ran)) > 1 or len(set(c for c, _ in ran)) < len(set(d[0] for d in done))),
            'labels': sorted(set(c for c, _ in ran)) + ['instances %d' % len(set(d[0] for d in done))], 'comparisons': n}
