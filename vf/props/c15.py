"""Redshift-space corrections and spectra interpolated for the user."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation

ID = 'C15'
RULE = ('a case is an instance with arbitrary columns, wavenumbers inside, at and beyond those of the instance, a cosine (squared), a growth rate, a growth '
        'factor and values beyond the ends; non-trivial: some k strictly between two nodes, growth and rate different from 1')
CASES = {'quick': 2400, 'thorough': 40000}
ASSUMPTIONS = ['the wavenumbers of the instance increase']

# powers (mu, rate) of the columns
POWERS = {'A1Loop': [(2, 1), (2, 2), (4, 2), (4, 3), (6, 3)], 'B1Loop': [(2, 2), (2, 3), (2, 4), (4, 2), (4, 3), (4, 4), (6, 3), (6, 4), (8, 4)]}
POWERS['A2Loop'], POWERS['B2Loop'] = POWERS['A1Loop'], POWERS['B1Loop']


@st.composite
def strategy_(draw):
    return {'cls': draw(st.sampled_from(['A1Loop', 'A2Loop', 'B1Loop', 'B2Loop'] * 2 + ['Spectrum1Loop', 'Spectrum2Loop', 'SpectrumLin', 'SpectrumNoWiggle'])), 'n': draw(st.integers(1, 10)),
            'seed': draw(st.integers(0, 9999)), 'size': draw(gen.fl(-3., 4., 2)),
            'at': draw(st.lists(st.one_of(st.tuples(st.just('node'), st.integers(0, 9)), st.tuples(st.just('u'), gen.fl(-0.3, 1.3, 3))).map(list), min_size=1, max_size=6)),
            'shape': draw(st.sampled_from(['scalar', 'array', 'array', 'list', '2d'])), 'mu': draw(st.sampled_from(['one', 'each'])), 'muv': draw(gen.fl(0., 1., 3)),
            'beta': draw(st.sampled_from([None, 0.3, 0.47, 0.8, 1.7, -0.5, 0.])), 'D': draw(st.sampled_from([None, 0.6, 0.77, 1.4])),
            'ends': draw(st.sampled_from([None, None, 'left', 'right', 'both'])), 'pos': draw(st.booleans())}


def strategy(tier):
    return strategy_()


def lininterp(x, k, y, left, right):
    """Piecewise linear, values and what rounding may be relative to."""
    out, big = np.empty_like(x), np.empty_like(x)
    for i, v in np.ndenumerate(x):
        if v < k[0]: out[i], big[i] = left, abs(left)
        elif v > k[-1]: out[i], big[i] = right, abs(right)
        else:
            j = min(int(np.searchsorted(k, v, side='right')) - 1, len(k) - 2) if len(k) > 1 else 0
            if len(k) == 1: out[i], big[i] = y[0], abs(y[0])
            else:
                f = (v - k[j]) / (k[j + 1] - k[j])
                out[i], big[i] = (1. - f) * y[j] + f * y[j + 1], abs(y[j]) + abs(y[j + 1])
    return out, big


def check(case, api):
    name, n = case['cls'], case['n']
    s = getattr(api.P, name)()
    R = np.random.RandomState(case['seed'])
    k = np.cumsum(R.uniform(0.02, 0.3, n))
    cols = {}
    for key in s.FIELDS:
        shape = (n,) + tuple(getattr(s, 'SHAPE', {}).get(key, ()))
        cols[key] = R.choice([-1., 1.], shape) * 10.**(case['size'] + R.uniform(-1., 1., shape))
    cols['k'] = k
    if 'sigmad2' in cols: cols['sigmad2'] = 10.**R.uniform(-1., 2., n)
    for key in cols: s[key] = cols[key].copy()
    at = np.array([k[t[1] % n] if t[0] == 'node' else (k[0] + t[1] * (k[-1] - k[0] if n > 1 else 1.)) for t in case['at']])
    shape = case['shape']
    if shape == 'scalar': at = at[:1]
    x = {'scalar': float(at[0]), 'array': at, 'list': list(at), '2d': at[None, :] * np.ones((2, 1))}[shape]
    kw = {}
    if case['beta'] is not None and name in POWERS: kw['beta'] = case['beta']
    if case['D'] is not None: kw['Dgrowth'] = case['D']
    left = right = 0.
    if case['ends'] in ('left', 'both'): left = kw['left'] = 3.5
    if case['ends'] in ('right', 'both'): right = kw['right'] = -2.25
    D, beta = kw.get('Dgrowth', 1.), kw.get('beta', 1.)
    X = np.array(x, 'f8')
    if name in POWERS:
        mu2 = case['muv']**2
        M = mu2 * np.ones(X.shape)
        if case['mu'] == 'each' and shape != 'scalar':
            mu2 = M = R.uniform(0., 1., X.shape)
        if case['pos'] and 'beta' in kw: got = s.pk_interp(x, mu2, kw.pop('beta'), **kw)
        else: got = s.pk_interp(x, mu2, **kw) if case['pos'] else s.pk_interp(k=x, mu2=mu2, **kw)
        want, big = np.zeros(X.shape), np.zeros(X.shape)
        for c, (m, b) in enumerate(POWERS[name]):
            y, a = lininterp(X, k, D**4 * cols['pk'][:, c], left, right)
            w = M**(m // 2) * beta**b
            want, big = want + w * y, big + np.abs(w) * a
    else:
        if 'sigmad2' in cols and case['pos']: kw['sigmad2'] = 2.
        got = s.pk_interp(x, **kw)
        pkw = {a: b for a, b in kw.items() if a in ('Dgrowth', 'sigmad2')}
        y = s.pk(**pkw)
        want, big = lininterp(X, k, y, left, right)
    got = np.asarray(got)
    if got.shape != X.shape: raise Violation('%s.pk_interp: shape %r for k of shape %r' % (name, got.shape, X.shape))
    bad = ~(np.abs(got - want) <= 1e-11 * big + 1e-300)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation('%s.pk_interp(%r) = %r, expected %r (%r)' % (name, X[i], got[i], want[i], kw))
    for key in cols:
        if not np.array_equal(s[key], cols[key]): raise Violation('column %s changed by pk_interp' % key)
    inside = (X > k[0]) & (X < k[-1]) & ~np.isin(X, k)
    return {'nontrivial': bool(inside.any()) and case['D'] is not None and (case['beta'] is not None or name not in POWERS), 'labels': [name, shape], 'comparisons': int(X.size)}
