"""Interpolation primitives."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation

ID = 'C04'
RULE = ('a case is up to 9 points (x increasing, any y), given as float64, float32, list or strided array, and abscissas inside, at and '
        'beyond them, or up to 1500 points of a polynomial of degree at most 2 for which all operations are exact; non-trivial: at least 3 points, one abscissa not a point')
CASES = {'quick': 4000, 'thorough': 60000}
ASSUMPTIONS = ['distinct x, separated by at least 1e-3 of their range']


@st.composite
def long_(draw):
    # values of a polynomial of degree at most 2 at dyadic points: every operation is exact, however many points there are
    n = draw(st.one_of(st.integers(1, 40), st.integers(1, 300), st.integers(1, 1500)))
    return {'long': n, 'step': draw(st.sampled_from([0.125, 0.5, 1., 4.])), 'first': draw(st.integers(-64, 64)),
            'c': draw(st.lists(st.integers(-8, 8), min_size=1, max_size=3)), 'at': draw(st.lists(st.integers(-20, 3020), min_size=1, max_size=3))}


@st.composite
def short_(draw):
    n = draw(st.integers(1, 9))
    gaps = draw(st.lists(gen.fl(0.1, 3., 3), min_size=n - 1, max_size=n - 1))
    return {'x0': draw(gen.fl(-5., 5., 3)), 'gaps': gaps, 'y': draw(st.lists(gen.fl(-100., 100., 4), min_size=n, max_size=n)),
            'at': draw(st.lists(st.one_of(st.tuples(st.just('node'), st.integers(0, 20)), st.tuples(st.just('u'), gen.fl(-0.5, 1.5, 4))),
                                min_size=1, max_size=6).map(lambda l: [list(v) for v in l])),
            'poly': draw(st.booleans()), 'form': draw(st.sampled_from(['f8', 'f8', 'list', 'f4', 'strided', 'reversed']))}


def strategy(tier):
    return st.one_of(short_(), short_(), short_(), long_())


def check_long(case, api):
    n = case['long']
    x = (case['first'] + np.arange(n)) * case['step']
    y = np.polyval(case['c'], x) if n >= len(case['c']) else np.full(n, float(case['c'][0]))
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    for i in case['at']:
        a = (case['first'] + 0.5 * (i % (2 * n + 3) - 2)) * case['step']
        want = float(np.polyval(case['c'], a)) if n >= len(case['c']) else float(case['c'][0])
        got = s.interpol_poly(a, x, y)
        if not abs(got - want) <= 1e-12 * (abs(want) + np.abs(y).max()):
            raise Violation('interpol_poly(%r) = %r, expected %r through %d points, step %r, of the polynomial %r' % (a, got, want, n, case['step'], case['c']))
    return {'nontrivial': n >= 3 and len(case['c']) > 1, 'labels': ['many points' if n > 9 else 'exact'], 'comparisons': len(case['at'])}


def check(case, api):
    if 'long' in case: return check_long(case, api)
    n = len(case['y'])
    x = case['x0'] + np.concatenate([[0.], np.cumsum(case['gaps'])])
    y = np.array(case['y'], 'f8')
    if case['poly']: y = np.polyval(np.array(case['y'], 'f8') / 20.**np.arange(n)[::-1], x)
    if case['form'] == 'f4':
        x, y = x.astype('f4').astype('f8'), y.astype('f4').astype('f8')
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    gx, gy = x, y
    if case['form'] == 'list': gx, gy = list(x), list(y)
    if case['form'] == 'f4': gx, gy = x.astype('f4'), y.astype('f4')
    if case['form'] == 'strided':
        gx, gy = np.full((n, 2), 1e3), np.full((n, 2), 1e3)
        gx[:, 0], gy[:, 0] = x, y
        gx, gy = gx[:, 0], gy[:, 0]
    if case['form'] == 'reversed': gx, gy = x[::-1], y[::-1]
    for tok in case['at']:
        a = x[tok[1] % n] if tok[0] == 'node' else x[0] + tok[1] * (x[-1] - x[0] if n > 1 else 1.)
        L = np.array([np.prod([(a - x[m]) / (x[j] - x[m]) for m in range(n) if m != j]) for j in range(n)])
        want, amp = (L * y).sum(), np.abs(L * y).sum()
        got = s.interpol_poly(a, gx, gy)
        if not abs(got - want) <= 1e-10 * amp + 1e-12 * np.abs(y).max() * max(1., np.abs(L).sum()):
            raise Violation('interpol_poly(%r) = %r, expected %r through %r, %r' % (a, got, want, list(x), list(y)))
        if tok[0] == 'node' and abs(got - y[tok[1] % n]) > 1e-13 * abs(y[tok[1] % n]):
            raise Violation('interpol_poly at the node %r = %r, expected %r' % (a, got, y[tok[1] % n]))
        if n > 1:
            f = (a - x[0]) / (x[-1] - x[0])
            got = s.interpol_lin(a, gx, gy)
            want = (1. - f) * y[0] + f * y[-1]
            if not abs(got - want) <= 1e-12 * (abs((1. - f) * y[0]) + abs(f * y[-1]) + abs(y[0]) + abs(y[-1])) + 1e-300:
                raise Violation('interpol_lin(%r) = %r, expected %r between (%r, %r) and (%r, %r)' % (a, got, want, x[0], y[0], x[-1], y[-1]))
    return {'nontrivial': n >= 3 and any(t[0] == 'u' for t in case['at']), 'labels': [case['form'], 'points %d' % n], 'comparisons': 2 * len(case['at'])}
