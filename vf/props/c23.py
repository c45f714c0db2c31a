"""The power spectrum without wiggles."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation

ID = 'C23'
RULE = ('a case is a cosmology (physical densities, density parameters or both), wavenumbers, tilt, amplitude given or taken from a spectrum, growth factor, wavenumbers given in several ways, possibly '
        'several times; non-trivial: at least two wavenumbers, and some of the parameters are not the defaults')
CASES = {'quick': 2000, 'thorough': 40000}
ASSUMPTIONS = ['0.4 <= h <= 1, 0.005 <= omega_b <= 0.04 or omega_b = 0, omega_b <= 0.4 omega_m, omega_m <= 0.6 (the range in which the fit is defined)', 'k in h/Mpc, positive']
DEFAULT = {'h': 0.676, 'omega_b': 0.022, 'omega_m': 0.21, 'T_cmb': 2.7255}


@st.composite
def strategy_(draw):
    c = {'k': draw(st.lists(gen.logfl(1e-5, 50., 4), min_size=1, max_size=8)), 'how': draw(st.sampled_from(['terms', 'zeros', 'column', 'list'])), 'ns': draw(st.one_of(st.none(), gen.fl(0.5, 1.5, 3))),
         'D': draw(st.one_of(st.none(), gen.fl(0.1, 2., 3))), 'sets': []}
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        p = {}
        if draw(st.booleans()): p['h'] = draw(gen.fl(0.4, 1., 3))
        if draw(st.booleans()): p['omega_b'] = draw(st.one_of(gen.fl(0.005, 0.04, 3), gen.fl(0.005, 0.04, 3), gen.fl(0.005, 0.04, 3), st.just(0.)))
        if draw(st.booleans()): p['omega_m'] = draw(gen.fl(0.045, 0.6, 3))
        if draw(st.booleans()): p['T_cmb'] = draw(gen.fl(2., 3.5, 3))
        # fractions of the critical density, taking precedence
        if draw(st.integers(0, 2)) == 0: p['Omega_m'] = draw(gen.fl(0.3, 0.9, 3))
        if draw(st.integers(0, 2)) == 0: p['Omega_b'] = draw(st.one_of(gen.fl(0.02, 0.2, 3), gen.fl(0.02, 0.2, 3), gen.fl(0.02, 0.2, 3), st.just(0.)))
        q = dict(DEFAULT, **p)
        fb = (p['Omega_b'] * q['h']**2 if 'Omega_b' in p else q['omega_b']) / (p['Omega_m'] * q['h']**2 if 'Omega_m' in p else q['omega_m'])
        if fb > 0.4: p = {}
        c['sets'].append({'par': p, 'A': draw(st.one_of(st.none(), gen.logfl(1e-3, 1e6, 3), st.sampled_from([0., 1.]))), 'pk': draw(st.sampled_from(['array', 'list', 'one'])), 'pk0': draw(gen.logfl(1e-2, 1e5, 4)), 'extra': draw(st.booleans())})
    return c


def strategy(tier): return strategy_()


def transfer(k, par):
    """Eisenstein & Hu (1998), section 4.2: equations (26), (28)-(31), Mpc and physical densities."""
    with mp.workdps(30):
        p = dict(DEFAULT, **{a: v for a, v in par.items() if a in DEFAULT})
        h = mp.mpf(p['h'])
        om = mp.mpf(par['Omega_m']) * h**2 if 'Omega_m' in par else mp.mpf(p['omega_m'])
        ob = mp.mpf(par['Omega_b']) * h**2 if 'Omega_b' in par else mp.mpf(p['omega_b'])
        s = mp.mpf('44.5') * mp.log(mp.mpf('9.83') / om) / mp.sqrt(1 + 10 * ob**mp.mpf('0.75'))     # Mpc
        f = ob / om
        alpha = 1 - mp.mpf('0.328') * mp.log(431 * om) * f + mp.mpf('0.38') * mp.log(mp.mpf('22.3') * om) * f**2
        out = []
        for x in k:
            kmpc = mp.mpf(x) * h                                                                    # 1/Mpc
            gamma = om / h * (alpha + (1 - alpha) / (1 + (mp.mpf('0.43') * kmpc * s)**4))
            q = mp.mpf(x) * (mp.mpf(p['T_cmb']) / mp.mpf('2.7'))**2 / gamma
            L = mp.log(2 * mp.e + mp.mpf('1.8') * q)
            C = mp.mpf('14.2') + 731 / (1 + mp.mpf('62.5') * q)
            out.append(float(L / (L + C * q**2)))
        return np.array(out)


def close(what, got, want, rel=1e-11):
    got = np.asarray(got)
    if got.shape != want.shape: raise Violation('%s has the shape %r, expected %r' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= rel * np.abs(want))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('%s at row %d is %r, expected %r' % (what, i, float(got[i]), float(want[i])))
    return want.size


def check(case, api):
    k = np.array(case['k'])
    n = 0
    if case['how'] == 'column': s = api.P.SpectrumNoWiggle(k=k.copy())
    else:
        s = api.P.SpectrumNoWiggle()
        if case['how'] == 'terms': s.set_terms(k)
        elif case['how'] == 'zeros': s.zeros(k)
        else: s.set_terms(list(k))
    ns = 1. if case['ns'] is None else case['ns']
    for st_ in case['sets']:
        par = st_['par']
        T = transfer(k, par)
        n += close('transfer(%r)' % par, s.transfer(**par), T)
        kw = dict(par)
        if case['ns'] is not None: kw['n_s'] = ns
        want = k**ns * T**2
        if st_['A'] is not None:
            want = st_['A'] * want
            kw['A'] = st_['A']
        if st_['A'] is None or st_['extra']:
            pk = st_['pk0'] * np.random.RandomState(3).uniform(0.5, 2., len(k))
            pk[0] = st_['pk0']
            kw['pk'] = pk[:1] if st_['pk'] == 'one' else list(pk) if st_['pk'] == 'list' else pk
            if st_['A'] is None: want = want / want[0] * pk[0]
        s.run_terms(**kw)
        what = 'run_terms(%s)' % ', '.join('%s=%r' % x for x in kw.items())
        n += close(what + ': pk', s['pk'], want, rel=1e-10)
        n += close(what + ': k', s.k, k, rel=0.)
        D = 1. if case['D'] is None else case['D']
        n += close(what + ': pk(%r)' % D, s.pk() if case['D'] is None else s.pk(Dgrowth=D), D**2 * want, rel=1e-10)
        n += close(what + ': as computed', s['pk'], want, rel=1e-10)
    return {'nontrivial': len(k) > 1 and any(x['par'] for x in case['sets']), 'labels': [case['how'], 'pk' if case['sets'][0]['A'] is None else 'A'], 'comparisons': n}
