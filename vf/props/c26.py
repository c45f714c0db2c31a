"""What different calculations have in common: the same spectrum and settings, asked for in different ways."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation
from vf.props import c17

ID = 'C26'
RULE = ('a case is a table, wavenumbers and settings given to several calculations: the four pairs of fields at one or two loops, one loop and two loops, all kinds of terms, and the limit of small amplitude; '
        'non-trivial: at least two wavenumbers and terms that are not all zero')
CASES = {'quick': 560, 'thorough': 16000}
ASSUMPTIONS = ['the spectrum is positive (interpolated linearly where sums of squares are looked at, so that it remains so)', 'the Monte Carlo integrals run on the stand-in, on the same points']
PAIRS = [('delta', 'delta'), ('delta', 'theta'), ('theta', 'delta'), ('theta', 'theta')]


@st.composite
def strategy_(draw):
    return {'what': draw(st.sampled_from(['pairs1', 'pairs2', 'loops', 'small', 'smallB', 'columns'])),
            'table': draw(gen.tables(nmin=4, nmax=24, kmin=(3e-3, 2e-2), kmax=(0.5, 3.), rough=False)), 'k': draw(st.lists(gen.fl(0.02, 0.98, 3), min_size=1, max_size=6)),
            'range': draw(st.one_of(st.none(), st.tuples(gen.fl(0.02, 0.3, 3), gen.fl(0.4, 0.97, 3)).map(list))), 'n': draw(st.integers(2, 8)), 'm': draw(st.integers(1, 6)),
            'uv': draw(st.sampled_from([None, 0.3, 2.])), 'interp': draw(st.sampled_from(['lin', 'poly'])), 'nthreads': draw(st.sampled_from([1, 2])), 'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta']))}


def strategy(tier): return strategy_()


def setup(case, api, interp=None):
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    tk, tp = gen.table(case['table'])
    interp = interp or case['interp']
    lo, hi = (-1., -1.) if case['range'] is None else [tk[0] * (tk[-1] / tk[0])**x for x in case['range']]
    for name in ('gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_I_q', 'B_q', 'gamma3_tree_q', 'A_2loop_II_III_q'):
        s.set_precision(name, n=case['n'], min=lo, max=hi, interpol=interp)
    for name in ('gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu'): s.set_precision(name, n=case['m'], interpol=interp)
    for name in ('spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B'): s.set_precision(name + '_pk_lin', interpol=interp)
    if case['uv']: s.set_running_uvcutoff('all', uvcutoff=case['uv'])
    api.suave_points(c17.PTS)
    return tk, tp, tk[0] * (tk[-1] / tk[0])**np.array(case['k'])


def run(case, api, cls, tk, tp, k, ab=None):
    s = getattr(api.P, cls)()
    s.set_pk_lin(tk, tp)
    s.set_terms(k)
    kw = {'nthreads': case['nthreads']}
    if ab: kw.update(a=ab[0], b=ab[1])
    s.run_terms(**kw)
    return s


def equal(what, x, y, rel=1e-9, floor=0.):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape: raise Violation('%s: shapes %r and %r' % (what, x.shape, y.shape))
    bad = ~(np.abs(x - y) <= rel * np.abs(y) + floor) & ~(x == y) & ~(np.isnan(x) & np.isnan(y))
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        raise Violation('%s%s: %r and %r' % (what, [int(i) for i in j], x[j], y[j]))
    return x.size


def pairs(case, api, cls):
    tk, tp, k = setup(case, api, 'lin')
    r = {}
    for ab in PAIRS:
        s = run(case, api, cls, tk, tp, k, ab)
        r[ab] = {f: np.array(s[f]) for f in s.FIELDS}
        r[ab]['pk'] = s.pk()
    s = run(case, api, cls, tk, tp, k, None)
    none = [equal('%s when no field is given, and for (delta, delta)' % f, s[f], r[PAIRS[0]][f]) for f in s.FIELDS]
    n = sum(none)
    one = [f for f in r[PAIRS[0]] if f.startswith('gamma1a')]
    for a, b in PAIRS:
        for f in one:
            n += equal('%s of %s, with itself or with the other' % (f, a), r[a, b][f], r[a, a][f])
            n += equal('%s and %s of %s' % (f, f.replace('1a', '1b'), b), r[a, b][f.replace('1a', '1b')], r[b, b][f])
    for f in ['k', 'pk_lin', 'sigmad2']:
        for ab in PAIRS: n += equal('column %s for %r' % (f, ab), r[ab][f], r[PAIRS[0]][f])
    modes = [f for f in r[PAIRS[0]] if f.startswith('pk_gamma')]
    dd, dt, td, tt = (r[ab] for ab in PAIRS)
    for f in modes + ['pk']: n += equal('%s of delta and theta, theta and delta' % f, td[f], dt[f], rel=1e-8, floor=1e-9 * np.sqrt(np.abs(dd[f] * tt[f])))
    P, V = np.array(dd['pk_lin']), k**3
    for f in modes:
        if f.endswith('tree_1loop'): continue
        x, y, z = dd[f], tt[f], dt[f]
        tiny = 1e-9 * P**{'pk_gamma2_tree_tree': 2, 'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3}[f] * V**{'pk_gamma2_tree_tree': 1, 'pk_gamma2_1loop_1loop': 3, 'pk_gamma3_tree': 2}[f]
        # sums of squares, and of products (the Monte Carlo domain, cut in the same way for all pairs, too)
        if not ((x >= -tiny) & (y >= -tiny)).all(): raise Violation('%s, a sum of squares, is %r (density) and %r (velocity)' % (f, x.tolist(), y.tolist()))
        if not (z**2 <= (np.abs(x) + tiny) * (np.abs(y) + tiny) * (1. + 1e-7)).all(): raise Violation('%s: %r of density and velocity is too large for %r and %r' % (f, z.tolist(), x.tolist(), y.tolist()))
        n += 2 * len(x)
    if 'pk_gamma2_tree_1loop' in modes:
        for ab in (dd, tt):
            t, m, l = (ab['pk_gamma2_' + x] for x in ('tree_tree', 'tree_1loop', '1loop_1loop'))
            if not (m**2 <= 4. * np.abs(t * l) * (1. + 1e-7) + 1e-18 * (P**3 * V**2)**2).all(): raise Violation('tree-loop term %r too large for tree-tree %r and loop-loop %r' % (m.tolist(), t.tolist(), l.tolist()))
            n += len(t)
    return n, any(np.any(r[ab][f]) for ab in r for f in modes)


def check(case, api):
    what = case['what']
    if what in ('pairs1', 'pairs2'):
        n, some = pairs(case, api, 'Spectrum1Loop' if what == 'pairs1' else 'Spectrum2Loop')
    else:
        tk, tp, k = setup(case, api)
        n, some, ab = 0, True, (case['a'], case['b'])
        if what == 'loops':
            one, two = (run(case, api, c, tk, tp, k, ab) for c in ('Spectrum1Loop', 'Spectrum2Loop'))
            for f in one.FIELDS: n += equal('column %s at one and two loops' % f, two[f], one[f], rel=1e-10)
            some = bool(np.any(one['pk_gamma2_tree_tree']))
        elif what == 'columns':
            ref = {}
            for c in ('Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop'):
                s = run(case, api, c, tk, tp, k, ab if c.startswith('Spectrum') else None)
                for f in ('k', 'pk_lin', 'sigmad2'): n += equal('column %s of %s' % (f, c), s[f], ref.setdefault(f, np.array(s[f])), rel=1e-12)
                n += equal('pk_lin(2) of %s' % c, s.pk_lin(2.), 4. * ref['pk_lin'], rel=1e-12)
            n += equal('column pk_lin and what is looked up', ref['pk_lin'], s.find_pk_lin(k, interpol=case['interp']), rel=1e-12)
            n += equal('column sigmad2 and what is computed', ref['sigmad2'], s.calc_running_sigmad2(k, uvcutoff=case['uv'] or 0.5), rel=1e-12)
        elif what == 'small':
            # what the loops add vanishes with the amplitude as it must
            full = run(case, api, 'Spectrum2Loop', tk, tp, k, ab)
            P, F = full['pk_lin'], 0.5 * k**2 * full['sigmad2']
            first = F + np.abs(full['gamma1a_1loop']) + np.abs(full['gamma1b_1loop']) + np.abs(full['pk_gamma2_tree_tree'] / P)
            second = first**2 + np.abs(full['gamma1a_2loop']) + np.abs(full['gamma1b_2loop']) + np.abs(full['pk_gamma2_tree_1loop'] / P) + np.abs(full['pk_gamma3_tree'] / P) + np.sqrt(np.abs(full['pk_gamma2_1loop_1loop'] / P))**(4. / 3.)
            e = 1e-3 / max(first.max(), np.sqrt(second.max()), np.sqrt(np.abs(full['pk_gamma2_1loop_1loop'] / P).max())**(2. / 3.), 1e-30)
            one, two = (run(case, api, c, tk, e * tp, k, ab).pk() for c in ('Spectrum1Loop', 'Spectrum2Loop'))
            n += equal('amplitude times %r: spectra at two loops and one' % e, two / (e * P), one / (e * P), rel=0., floor=2e-5)
            n += equal('amplitude times %r: spectrum at one loop and linear' % e, one / (e * P), np.ones(len(k)), rel=0., floor=1e-2)
        elif what == 'smallB':
            b1 = run(case, api, 'B1Loop', tk, tp, k)
            V = np.array(b1['pk'])
            s = api.P.Spectrum1Loop()
            s.set_pk_lin(tk, tp)
            s.set_terms(tk)
            big = 0.
            for b in ('delta', 'theta'):
                s.run_terms(a=b, b='theta', nthreads=case['nthreads'])
                big = max(big, (0.5 * tk**2 * s['sigmad2']).max(), np.abs(s['gamma1a_1loop']).max(), np.abs(s['gamma1b_1loop']).max(), np.abs(s['pk_gamma2_tree_tree'] / tp).max())
            e = 1e-6 / max(big, 1e-30)
            b2 = run(case, api, 'B2Loop', tk, e * tp, k)
            n += equal('amplitude times %r: B with one-loop spectra and linear' % e, b2['pk'] / e**2, V, rel=1e-4, floor=1e-4 * np.abs(V).max(axis=1, keepdims=True))
            some = bool(np.any(V))
    return {'nontrivial': bool(some) and len(case['k']) > 1, 'labels': [what], 'comparisons': n}
