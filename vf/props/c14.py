"""How the terms are put together into spectra: regularisation, damping, growth."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen
from vf.core import Violation

ID = 'C14'
RULE = ('a case is an instance whose columns are arbitrary (filled by hand, any sign and size) or computed, a growth factor, and possibly a displacement '
        'dispersion given by the user (number or array); non-trivial: growth different from 1 and some damping between 1e-3 and 0.999')
CASES = {'quick': 2400, 'thorough': 40000}
ASSUMPTIONS = ['k > 0', 'one-loop spectra are regularised at one loop, two-loop ones at two loops (Taruya et al. 2012, eq. 23-24); bias spectra b22, b2s2, bs22 damped as propagator squared']

CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop', 'SpectrumLin', 'SpectrumNoWiggle']


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(['hand', 'hand', 'hand', 'c1', 'c2']))
    c = {'kind': kind, 'D': draw(st.one_of(st.sampled_from([1., 0.5]), gen.fl(0.05, 2.5, 4))), 'sd': draw(st.sampled_from([None, None, 'num', 'array', 'zero'])),
         'sdv': draw(gen.logfl(1e-2, 1e3, 3)), 'pos': draw(st.booleans()), 'seed': draw(st.integers(0, 9999))}
    if kind == 'hand':
        c.update(cls=draw(st.sampled_from(CLS[:3] * 3 + CLS[3:])), n=draw(st.integers(1, 12)), kmax=draw(gen.logfl(0.05, 3., 3)), size=draw(gen.fl(-3., 3., 2)))
    else:
        c.update(table=draw(gen.tables(nmax=12)), k=draw(st.lists(gen.fl(0.05, 0.95, 3), min_size=1, max_size=5)), a=draw(st.sampled_from(['delta', 'theta'])),
                 b=draw(st.sampled_from(['delta', 'theta'])), nthreads=draw(st.sampled_from([1, 2, 3])))
    return c


def strategy(tier):
    return strategy_()


def want_1loop(v, D, sd):
    f = v['k']**2 * D**2 * sd / 2.
    props = [D * (1. + f + v['gamma1%s_1loop' % x] * D**2) for x in 'ab']
    parts = [np.exp(-2. * f) * props[0] * props[1] * v['pk_lin'], np.exp(-2. * f) * v['pk_gamma2_tree_tree'] * D**4]
    big = [np.exp(-2. * f) * np.abs(v['pk_lin']) * D**2 * (1. + f + np.abs(v['gamma1a_1loop']) * D**2) * (1. + f + np.abs(v['gamma1b_1loop']) * D**2), np.abs(parts[1])]
    return sum(parts), sum(big)


def want_2loop(v, D, sd):
    f = v['k']**2 * D**2 * sd / 2.
    E2 = np.exp(-2. * f)
    g, G = [], []
    for x in 'ab':
        one, two = v['gamma1%s_1loop' % x] * D**2, v['gamma1%s_2loop' % x] * D**4
        g.append(1. + f + f**2 / 2. + one + one * f + two)
        G.append(1. + f + f**2 / 2. + np.abs(one) * (1. + f) + np.abs(two))
    t = [E2 * D**2 * g[0] * g[1] * v['pk_lin'],
         E2 * D**4 * (1. + 2. * f + f * f) * v['pk_gamma2_tree_tree'], E2 * D**6 * (1. + f) * v['pk_gamma2_tree_1loop'], E2 * D**8 * v['pk_gamma2_1loop_1loop'],
         E2 * D**6 * v['pk_gamma3_tree']]
    return sum(t), E2 * D**2 * G[0] * G[1] * np.abs(v['pk_lin']) + sum(np.abs(x) for x in t[1:])


def compare(what, got, want, big, rel=1e-11):
    got = np.asarray(got)
    if got.shape != want.shape: raise Violation('%s has the shape %r, expected %r' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= rel * big + 1e-300)
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation('%s[%s] = %r, expected %r' % (what, tuple(int(x) for x in i), got[tuple(i)], want[tuple(i)]))
    return got.size


def hand(case, api):
    s = getattr(api.P, case['cls'])()
    R = np.random.RandomState(case['seed'])
    n = case['n']
    vals = {}
    for key in s.FIELDS:
        shape = (n,) + tuple(getattr(s, 'SHAPE', {}).get(key, ()))
        vals[key] = R.choice([-1., 1.], shape) * 10.**(case['size'] + R.uniform(-1., 1., shape))
    vals['k'] = np.sort(R.uniform(0., case['kmax'], n)) + 1e-4
    if 'sigmad2' in vals: vals['sigmad2'] = 10.**R.uniform(-1., 3., n)
    if 'pk_lin' in vals: vals['pk_lin'] = np.abs(vals['pk_lin'])
    for key in vals: s[key] = vals[key].copy()
    return s, vals


def check(case, api):
    n = 0
    if case['kind'] == 'hand': s, v = hand(case, api)
    else:
        tk, tp = gen.table(case['table'])
        s = api.P.Spectrum1Loop() if case['kind'] == 'c1' else api.P.Spectrum2Loop()
        s.set_verbosity('quiet')
        s.set_pk_lin(tk, tp)
        cfg.cheap_2loop(s)
        k = tk[0] * (tk[-1] / tk[0])**np.array(case['k'])
        api.suave_points(np.full((2, 5), 0.37) + 0.1 * np.arange(10).reshape(2, 5) / 10.)
        s.set_terms(k)
        s.run_terms(a=case['a'], b=case['b'], nthreads=case['nthreads'])
        v = {key: s[key].copy() for key in s.FIELDS}
        # the library's own combination
        dp = ctypes.POINTER(ctypes.c_double)
        out = np.full(len(k), np.nan)
        kk = k.copy()
        if case['kind'] == 'c1':
            want, big = want_1loop(v, 1., v['sigmad2'])
            s.regpt.spectrum_1loop(out.ctypes.data_as(dp))
            n += compare('spectrum_1loop', out, want, big)
            s.regpt.set_spectrum_1loop.argtypes = (ctypes.c_size_t, dp, dp)
            out = np.full(len(k), np.nan)
            s.regpt.set_spectrum_1loop(len(kk), kk.ctypes.data_as(dp), out.ctypes.data_as(dp))
            s.regpt.run_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
            s.regpt.run_spectrum_1loop(case['a'].encode(), case['b'].encode(), case['nthreads'])
            n += compare('run_spectrum_1loop', out, want, big)
        else:
            want, big = want_2loop(v, 1., v['sigmad2'])
            s.regpt.spectrum_2loop(out.ctypes.data_as(dp))
            n += compare('spectrum_2loop', out, want, big)
        for key in v:
            if not np.array_equal(v[key], s[key]): raise Violation('column %s changed when the spectrum was put together' % key)
    D, k = case['D'], v['k']
    sd = {None: None, 'num': case['sdv'], 'zero': 0., 'array': case['sdv'] * np.linspace(0.3, 2., len(k))}[case['sd']]
    name = type(s).__name__
    sdv = v.get('sigmad2') if sd is None else sd * np.ones(len(k))
    kw = {} if sd is None else {'sigmad2': sd}
    call = (lambda f, **kw: f(D, **kw)) if case['pos'] else (lambda f, **kw: f(Dgrowth=D, **kw))
    if name in ('Spectrum1Loop', 'Spectrum2Loop'):
        want, big = (want_1loop if name == 'Spectrum1Loop' else want_2loop)(v, D, sdv)
        n += compare('pk(%r)' % D, call(s.pk, **kw), want, big)
        if sd is None and D != 1.:
            want, big = (want_1loop if name == 'Spectrum1Loop' else want_2loop)(v, 1., sdv)
            n += compare('pk()', s.pk(), want, big)
    if hasattr(s, 'pk_lin'): n += compare('pk_lin(%r)' % D, call(s.pk_lin), D**2 * v['pk_lin'], np.abs(D**2 * v['pk_lin']))
    if name.startswith('SpectrumLin') or name.startswith('SpectrumNo'): n += compare('pk(%r)' % D, call(s.pk), D**2 * v['pk'], np.abs(D**2 * v['pk']))
    if name[0] in 'AB' and name != 'Bias1Loop':
        n += compare('pk(%r)' % D, call(s.pk), D**4 * v['pk'], np.abs(D**4 * v['pk']))
    if name == 'Bias1Loop':
        for key in ['pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22']:
            n += compare('%s(%r)' % (key, D), call(getattr(s, key)), D**4 * v[key], np.abs(D**4 * v[key]))
        n += compare('pk_sigma3sq(%r)' % D, call(s.pk_sigma3sq), D**4 * v['pk_lin'] * v['sigma3sq'], np.abs(D**4 * v['pk_lin'] * v['sigma3sq']))
        f = 0.5 * k**2 * D**2 * sdv
        for key in ['pk_b22', 'pk_b2s2', 'pk_bs22']:
            want = D**4 * v[key] * (np.exp(-f) * (1. + f))**2
            n += compare('%s_damp(%r)' % (key, D), call(getattr(s, key + '_damp'), **kw), want, np.abs(want), rel=1e-10)
        lo, hi = 10.**np.random.RandomState(case['seed']).uniform(-3., 0., 2)
        sn = s.shotnoise(kmin=min(lo, hi), kmax=max(lo, hi))
        want = np.where(k > max(lo, hi), np.exp(-(k / max(lo, hi) - 1.)**2), np.where(k < min(lo, hi), np.exp(-(min(lo, hi) / k - 1.)**2), 1.))
        n += compare('shotnoise', sn, want, want + 1e-300)
    # without arguments: growth 1, the dispersion of the calculation, and the scales in the signature
    for f in ['pk', 'pk_lin'] + [f for f in dir(type(s)) if f.startswith('pk_b') or f == 'pk_sigma3sq']:
        if not hasattr(s, f): continue
        if name.startswith('Spectrum') and f == 'pk' and name[8] in '12' or f.endswith('damp'): want = getattr(s, f)(1., v['sigmad2'])
        else: want = getattr(s, f)(1.)
        n += compare('%s()' % f, getattr(s, f)(), want, np.abs(want), rel=1e-12)
    if hasattr(s, 'shotnoise'): n += compare('shotnoise()', s.shotnoise(), s.shotnoise(kmin=5e-4, kmax=10.), 1. + 0. * k)
    for key in v:
        if not np.array_equal(v[key], s[key]): raise Violation('column %s changed when a spectrum was asked for' % key)
    damp = np.exp(-0.5 * k**2 * D**2 * sdv) if sdv is not None else np.array([1.])
    return {'nontrivial': D != 1. and bool(((damp > 1e-3) & (damp < 0.999)).any()), 'labels': [name, case['kind']], 'comparisons': n}
