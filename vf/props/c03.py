"""Gauss-Legendre rule."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation

ID = 'C03'
RULE = 'a case is a number of nodes (1 to 3000) and an interval; non-trivial: at least 3 nodes and an interval other than [-1, 1]'
CASES = {'quick': 1600, 'thorough': 16000}
ASSUMPTIONS = ['xmin differs from xmax']


@st.composite
def strategy_(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 120), st.integers(1, 700), st.integers(1, 3000)))
    lo = draw(st.one_of(st.sampled_from([-1., 0.]), gen.fl(-20., 20., 5), gen.logfl(1e-6, 1e6, 4)))
    return {'n': n, 'lo': lo, 'len': draw(st.one_of(st.sampled_from([1., 2.]), gen.logfl(1e-3, 1e4, 4))) * draw(st.sampled_from([1., 1., -1.]))}


def strategy(tier):
    return strategy_()


EXAMPLES = [{'n': n, 'lo': -1., 'len': 2.} for n in (1, 2, 3, 4, 5, 600, 2000)]


def check(case, api):
    n, lo = case['n'], case['lo']
    hi = lo + case['len']
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    x, w = s.nodes_weights_gauss_legendre(lo, hi, n)
    if x.shape != (n,) or w.shape != (n,): raise Violation('shapes %s %s' % (x.shape, w.shape))
    mid, half = 0.5 * (hi + lo), 0.5 * (hi - lo)
    rnd = 4e-16 * (abs(mid / half) + 1.)     # rounding of the map to the interval
    u = (x - mid) / half
    if not np.all(np.isfinite(x)) or not np.all(np.isfinite(w)): raise Violation('not finite')
    if np.any(np.diff(u) <= 0.): raise Violation('nodes not in order from the first bound to the second')
    if u[0] <= -1. or u[-1] >= 1.: raise Violation('nodes outside the interval')
    if np.any(w / half <= 0.): raise Violation('weights not of the sign of the interval')
    v = w / half
    # moments of the Legendre polynomials: 2, 0, 0, ... up to degree 2n-1: the definition of the rule
    top = 2 * n - 1
    js = top if n <= 400 else 400
    p0, p1 = np.ones(n), u.copy()
    m = [v.sum(), (v * u).sum()]
    for j in range(1, js):
        p0, p1 = p1, ((2 * j + 1) * u * p1 - j * p0) / (j + 1)
        m.append((v * p1).sum())
    m = np.array(m[:js + 1])
    m[0] -= 2.
    tol = 1e-12 + np.arange(len(m))**1.5 * rnd * 4.
    bad = ~(np.abs(m) <= tol)
    if bad.any():
        j = int(np.argmax(bad))
        raise Violation('rule with %d nodes on [%r, %r]: moment %d of the Legendre polynomials is off by %r' % (n, lo, hi, j, m[j]))
    # the nodes are the roots of P_n: residual P_n / P_n' and weights 2/((1-u^2) P_n'^2)
    q0, q1 = np.ones(n), u.copy()
    for j in range(1, n): q0, q1 = q1, ((2 * j + 1) * u * q1 - j * q0) / (j + 1)
    d = n * (q0 - u * q1) / (1. - u**2)
    res = np.abs(q1 / d)
    if np.any(res > 1e-13 + 4. * rnd): raise Violation('node %d of %d is not a root of the Legendre polynomial (off by %r)' % (int(np.argmax(res)), n, res.max()))
    ww = 2. / ((1. - u**2) * d**2)
    rel = np.abs(v / ww - 1.)
    if np.any(rel > 1e-9 + 10. * rnd / (1. - u**2)): raise Violation('weight %d of %d is off by a factor 1 + %r' % (int(np.argmax(rel)), n, rel.max()))
    return {'nontrivial': n >= 3 and (lo, hi) != (-1., 1.), 'labels': ['odd' if n % 2 else 'even'], 'comparisons': 2 * n + len(m)}
