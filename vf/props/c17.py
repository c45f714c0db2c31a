"""Number of threads, batching and order of the wavenumbers, contents of fresh memory: none of them matters."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen
from vf.core import Violation

ID = 'C17'
RULE = ('a case is a calculation, a table, a list of wavenumbers in any order with repetitions, batches (sizes, threads from 1 to 16, contents of fresh memory, garbage in the columns to '
        'fill); every batch is compared, wavenumber by wavenumber, with a run of one wavenumber at a time on one thread; non-trivial: at least 3 wavenumbers and a batch with more than one thread')
CASES = {'quick': 1000, 'thorough': 20000}
ASSUMPTIONS = ['the Monte Carlo integrals run on the stand-in, on the same points', 'races show up as differing values: 8 cores, up to 16 threads, repeated runs']
RETRIES = 20
CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop', 'Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop']
SETS = {'Spectrum1Loop': {'gamma1_1loop_q': 30, 'gamma2_tree_q': 20, 'gamma2_tree_mu': 4}, 'Bias1Loop': {'bias_1loop_q': 40, 'bias_1loop_mu': 5},
        'Spectrum2Loop': {'gamma1_1loop_q': 8, 'gamma1_2loop_q': 6, 'gamma2_tree_q': 6, 'gamma2_1loop_q': 5, 'gamma2_tree_mu': 3},
        'A1Loop': {'A_1loop_q': 40, 'A_1loop_mu': 5}, 'A2Loop': {'A_2loop_q': 6, 'A_2loop_I_mu': 3, 'gamma1_1loop_q': 5, 'gamma2_1loop_q': 5},
        'B1Loop': {'B_q': 30, 'B_mu': 5}, 'B2Loop': {'B_q': 10, 'B_mu': 4, 'gamma1_1loop_q': 5, 'gamma2_tree_q': 5}}


@st.composite
def strategy_(draw):
    cls = draw(st.sampled_from(CLS))
    heavy = cls in ('Spectrum2Loop', 'A2Loop')
    nk = draw(st.integers(0, 12 if heavy else 40))
    many = draw(st.integers(60, 600)) if cls in ('Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop') and draw(st.integers(0, 9)) == 0 else 0
    return {'cls': cls, 'many': many, 'table': draw(gen.tables(nmax=30)), 'k': draw(st.lists(gen.fl(-0.1, 1.1, 3), min_size=nk, max_size=nk)), 'dup': draw(st.integers(0, 3)),
            'order': draw(st.sampled_from(['asc', 'desc', 'any'])), 'interp': draw(st.sampled_from([None, 'lin'])),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])),
            'batches': draw(st.lists(st.fixed_dictionaries({'n': st.integers(0, 40), 'threads': st.sampled_from([0, 1, 2, 3, 4, 7, 8, 8, 16]), 'perm': st.integers(0, 99),
                                                            'mem': st.sampled_from([0, 0, 0x5a, 0xa5, 0x40]), 'garbage': st.booleans(),
                                                            'before': st.one_of(st.just([]), st.lists(st.sampled_from(['low range', 'high range', 'other table', 'other points', 'other interpolation', 'other class']), max_size=3))}), min_size=1, max_size=4)),
            'first': draw(st.lists(st.sampled_from(['low range', 'high range', 'other table']), max_size=1)), 'range': draw(st.sampled_from([None, 'table']))}


def strategy(tier):
    return strategy_()


PTS = np.array([[0.62, 0.3, 0.71, 0.5, 0.4], [0.35, 0.6, 0.55, 0.2, 0.8]])


def check(case, api):
    libc = ctypes.CDLL(None)
    tk, tp = gen.table(case['table'])
    cls = case['cls']
    k = tk[0] * (tk[-1] / tk[0])**np.array(case['k'], 'f8')
    if case['many'] and len(k): k = gen.many(k, case['many'])
    if case['dup'] and len(k): k = np.concatenate([k, k[:case['dup']]])
    if case['order'] != 'any': k = np.sort(k)[::1 if case['order'] == 'asc' else -1]
    first = api.P.PyRegPT()
    first.set_verbosity('quiet')

    def settings(c, factor=1, interp=case['interp'], lim=case['range']):
        for name, n in SETS[c].items():
            first.set_precision(name)
            kw = {'n': n * factor}
            if interp: kw['interpol'] = interp
            if lim and not name.endswith('_mu'): kw['min'], kw['max'] = (-1., -1.) if lim == 'table' else lim
            first.set_precision(name, **kw)

    settings(cls)
    api.suave_points(PTS)
    run = {'nthreads': 1}
    if cls.startswith('Spectrum'): run.update(a=case['a'], b=case['b'])
    n = 0

    def make(kk):
        s = getattr(api.P, cls)()
        s.set_pk_lin(tk, tp)
        s.set_terms(kk)
        return s

    def before(what):
        # another calculation in between, then the settings of this one again
        c = cls
        if what == 'other class': c = [x for x in CLS if x[0] == cls[0] and x != cls] or ['B1Loop']; c = c[0]
        # a range with one end in common
        ends = (tk[0], tk[-1]) if case['range'] else cfg.DEFAULTS.get(list(SETS[c])[0], (0, 5e-4, 10.))[1:3]
        lo, hi = [t if x <= 0 else x for x, t in zip(ends, (tk[0], tk[-1]))]
        mid = float(np.sqrt(lo * hi))
        kw = {'low range': {'lim': (lo, mid)}, 'high range': {'lim': (mid, hi)}, 'other points': {'factor': 2},
              'other interpolation': {'interp': 'poly' if case['interp'] == 'lin' else 'lin'}}.get(what, {})
        settings(c, **kw)
        o = getattr(api.P, c)()
        o.set_pk_lin(tk, tp if what != 'other table' else 2. * tp)
        o.set_terms(k[:3] if len(k) else [0.1])
        o.run_terms(**({'nthreads': 2, 'a': 'theta', 'b': 'delta'} if c.startswith('Spectrum') else {'nthreads': 2}))
        settings(cls)

    for what in case['first']: before(what)
    single = []
    for v in k:
        s = make([v])
        s.run_terms(**run)
        single.append({f: np.array(s[f][0]) for f in s.FIELDS})
    for b in case['batches']:
        for what in b['before']: before(what)
        perm = np.random.RandomState(b['perm']).permutation(len(k))[:b['n'] if not case['many'] else case['many'] - b['n']]
        s = make(k[perm])
        if b['garbage']:
            for f in s.FIELDS:
                if f != 'k': s[f][...] = 1e30
        libc.mallopt(-6, b['mem'])      # M_PERTURB: fresh memory is filled with this
        try:
            for again in range(3 if b['threads'] > 1 and len(perm) > 1 else 1):
                s.run_terms(**dict(run, nthreads=b['threads']))
                for f in s.FIELDS:
                    if len(s[f]) != len(perm): raise Violation('%s: column %s has %d rows for %d wavenumbers' % (cls, f, len(s[f]), len(perm)))
                    for i, j in enumerate(perm):
                        got, want = s[f][i], single[j][f]
                        n += np.size(got)
                        bad = ~(np.abs(got - want) <= 1e-10 * np.max(np.abs(want), initial=0., where=np.isfinite(want))) & ~(np.isnan(got) & np.isnan(want)) & ~(got == want)
                        if np.any(bad):
                            raise Violation('%s, column %s at k = %r: %r in a batch of %d on %d threads, %r alone' % (cls, f, k[j], got, len(perm), b['threads'], want))
        finally:
            libc.mallopt(-6, 0)
    return {'nontrivial': len(k) >= 3 and any(b['threads'] not in (0, 1) and b['n'] >= 3 for b in case['batches']),
            'labels': [cls, case['order']] + (['memory'] if any(b['mem'] for b in case['batches']) else []) + (['empty'] if not len(k) else []) + (['history'] if any(b['before'] for b in case['batches']) else []), 'comparisons': n}
