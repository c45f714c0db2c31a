"""Default settings, dense smooth tables: results are the integrals of perturbation theory themselves."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, spt
from vf.core import Violation
from vf.props.c17 import PTS

ID = 'C28'
RULE = ('a case is a smooth spectrum tabulated densely, a kind of calculation and wavenumbers, run with every setting left at its default (or with the number of points doubled); '
        'non-trivial: at least one wavenumber where the loop integrals are compared and not zero')
CASES = {'quick': 240, 'thorough': 8000}
ASSUMPTIONS = ['the table has at least 60 nodes per decade and a smooth spectrum', 'k between 0.005 and 2 (h/Mpc), 0.001 to 0.4 for A',
               'the accuracy looked for is about 1 percent of the contributions added up']
# wide tables, as the loop integrals need
QMIN, QMAX = 5e-4, 10.
POINTS = {'spectrum': {'gamma1_1loop_q': 600, 'gamma2_tree_q': 200, 'gamma2_tree_mu': 10}, 'bias': {'bias_1loop_q': 1200, 'bias_1loop_mu': 20},
          'A': {'A_1loop_q': 1000, 'A_1loop_mu': 20}, 'B': {'B_q': 600, 'B_mu': 10}}
B_COLS = {(2, 2): 0, (2, 3): 1, (2, 4): 2, (4, 2): 3, (4, 3): 4, (4, 4): 5, (6, 3): 6, (6, 4): 7, (8, 4): 8}


def power(t):
    """The spectrum as a function."""
    def f(k):
        pk = t['A'] * (k / 0.1)**t['ns'] / (1. + (k / t['k0'])**2)**t['m']
        if 'bao' in t: pk = pk * (1. + t['bao'] * np.sin(k * 105.) * np.exp(-(k * 7.)**2))
        return pk
    return f


def panels(edges, n):
    x, w = np.polynomial.legendre.leggauss(n)
    edges = np.asarray(edges)
    h = 0.5 * np.diff(edges)
    c = 0.5 * (edges[1:] + edges[:-1])
    return (c[:, None] + h[:, None] * x).ravel(), (h[:, None] * w).ravel()


def log_edges(lo, hi, special, step):
    """Ends of panels in ln q, refined on both sides of special."""
    lo, hi, s = np.log(lo), np.log(hi), np.log(special)
    out = [lo, hi] + list(np.arange(lo, hi, step))
    near = s + np.concatenate([[0.], step * 2.**-np.arange(0., 22.), -step * 2.**-np.arange(0., 22.)])
    out = np.array(sorted(out + [x for x in near if lo < x < hi]))
    return out[np.concatenate([[True], np.diff(out) > 1e-9])]


def couplings(k, lo, hi, step=0.25, nq=6, nr=24):
    """All q, r = |k - q| within the range, and the measure d3q/(2pi)^3: 2 pi q r dq dr / k."""
    u, wu = panels(log_edges(lo, hi, k, step), nq)
    q = np.exp(u)
    a, b = np.maximum(np.abs(k - q), lo), np.minimum(k + q, hi)
    ok = b > a
    q, wu, a, b = q[ok], wu[ok], a[ok], b[ok]
    # in ln r, two panels
    x, w = np.polynomial.legendre.leggauss(nr)
    x, w = np.concatenate([0.25 * (x - 1.) + 0., 0.25 * (x + 1.)]) + 0.5, np.concatenate([0.25 * w, 0.25 * w])
    L = np.log(b / a)
    r = a[:, None] * np.exp(L[:, None] * x)
    q = q[:, None] + 0. * r
    wt = q**2 * r**2 / k * wu[:, None] * L[:, None] * w / (4. * np.pi**2)
    return q, r, wt


def spectrum_1loop(P, k, a, b):
    th = {'delta': 0, 'theta': 1}
    out = {}
    q, r, wt = couplings(k, QMIN, QMAX)
    val = wt * 2. * spt.f2(th[a], q, r, k) * spt.f2(th[b], q, r, k) * P(q) * P(r)
    out['pk_gamma2_tree_tree'] = val.sum(), np.abs(val).sum()
    u, w = panels(log_edges(QMIN, QMAX, k, 0.5), 6)
    q = np.exp(u)
    fg = spt.fg3_avg(k, q)
    for col, x in [('gamma1a_1loop', a), ('gamma1b_1loop', b)]:
        val = 3. * q**3 * w * P(q) * fg[th[x]] / (2. * np.pi**2)
        out[col] = val.sum(), np.abs(val).sum()
    return out


def bias(P, k, lo, hi):
    q, r, wt = couplings(k, lo, hi)
    mu12 = (k**2 - q**2 - r**2) / (2. * q * r)
    nu = (k**2 + q**2 - r**2) / (2. * k * q)
    S2 = mu12**2 - 1. / 3.
    D2 = 2. / 7. * (nu**2 - 1.)
    pq, pr = P(q), P(r)
    vals = {}
    for col, th, s in [('pk_b2d', 0, 1.), ('pk_bs2d', 0, S2), ('pk_b2t', 1, 1.), ('pk_bs2t', 1, S2)]: vals[col] = [pq * pr * spt.f2(th, q, r, k) * s]
    vals['pk_b22'] = [0.5 * pq * pr, -0.5 * pq * pq]
    vals['pk_b2s2'] = [0.5 * pq * pr * S2, -pq * pq / 3.]
    vals['pk_bs22'] = [0.5 * pq * pr * S2**2, -2. / 9. * pq * pq]
    vals['sigma3sq'] = [105. / 16. * pq * D2 * S2, 105. / 16. * pq * 8. / 63.]
    return {c: (sum((wt * x).sum() for x in v), sum(np.abs(wt * x).sum() for x in v)) for c, v in vals.items()}


def A(P, k, lo, hi):
    q, r, wt = couplings(k, lo, hi)
    q, r, wt = (x.astype(np.longdouble) for x in (q, r, wt))
    nu = (k * k + q * q - r * r) / (2. * k * q)
    g = ref.rsd_a(k, q, nu, np.maximum(1. - nu * nu, 0.), r)
    pq, pr, pk = P(q), P(r), P(k)
    out = np.zeros(5)
    mag = np.zeros(5)
    for (X, Y), cols in g.items():
        # theta on q, X on r, Y on k: the bispectrum, and theta on r the other way round: the same integral
        b = 2. * (spt.f2(1, r, k, q) * pr * pk + spt.f2(X, q, k, r) * pq * pk + spt.f2(Y, q, r, k) * pq * pr)
        for c, f in cols.items():
            out[c] += float((2. * wt * f * b).sum())
            mag[c] += float(np.abs(2. * wt * f * b).sum())
    return {('pk', c): (out[c], mag[c]) for c in range(5)}


def B(P, k):
    q, r, wt = couplings(k, QMIN, QMAX)
    nu = (k * k + q * q - r * r) / (2. * k * q)
    s2 = np.maximum(1. - nu * nu, 0.)
    out, mag = np.zeros(9), np.zeros(9)
    pp = P(q) * P(r) * wt * k**2
    for ea, eb, nf in [(1, 1, 2), (3, 1, 3), (1, 3, 3), (3, 3, 4)]:
        for n, g in enumerate(ref.azav(k, q, nu, s2, ea, eb)):
            col = B_COLS.get((n + 2, nf))
            if n % 2 or col is None: continue
            val = g * pp / (q**(ea + 1) * r**(eb + 1))
            out[col] += val.sum()
            mag[col] += np.abs(val).sum()
    return {('pk', c): (out[c], mag[c]) for c in range(9)}


@st.composite
def strategy_(draw, tier):
    t = {'n': 0, 'kmin': draw(gen.logfl(1e-4, 5e-4, 3)), 'kmax': draw(gen.logfl(10., 40., 3)), 'A': draw(gen.logfl(1e2, 1e5, 3)), 'ns': draw(gen.fl(0.7, 1.1, 3)),
         'k0': draw(gen.logfl(0.01, 0.05, 3)), 'm': draw(gen.fl(1.5, 1.9, 3)), 'spacing': 'log'}
    if draw(st.booleans()): t['bao'] = draw(gen.fl(0.01, 0.1, 2))
    t['n'] = int(draw(st.integers(70, 160)) * np.log10(t['kmax'] / t['kmin']))
    kinds = ['spectrum', 'spectrum', 'bias', 'A', 'B'] * 4 + ['spectrum2'] * 2 + (['A2'] if tier == 'thorough' else [])
    return {'table': t, 'what': draw(st.sampled_from(kinds)), 'x': draw(st.sampled_from([1, 1, 2, 3])), 'k': draw(st.lists(gen.logfl(5e-3, 2., 4), min_size=1, max_size=3)),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])), 'nthreads': draw(st.sampled_from([1, 2, 8]))}


def strategy(tier): return strategy_(tier)


# measured differences are about five times less
REL = {'gamma1': 2e-6, 'spectrum': 1e-2, 'bias': 5e-3, 'A': 6e-2, 'Ax': 1.2e-2, 'B': 2e-3, 'spectrum2': 2e-2, 'A2': 6e-2}


def tolerance(case, col, mag):
    what = case['what'] + ('x' if case['what'] == 'A' and case['x'] > 1 else '')
    return REL['gamma1' if col[:6] == 'gamma1' else what] * mag


# number of points: default, finer
FINER = {'spectrum2': {'gamma1_1loop_q': 900, 'gamma1_2loop_q': 800, 'gamma2_tree_q': 350, 'gamma2d_1loop_q': 160, 'gamma2t_1loop_q': 160, 'gamma2_tree_mu': 15},
         'A2': {'A_2loop_I_q': 450, 'A_2loop_I_mu': 14, 'A_2loop_II_III_q': 0, 'gamma1_1loop_q': 900, 'gamma2d_1loop_q': 140, 'gamma2t_1loop_q': 140}}


def refine(case, api, tk, tp, stats):
    """No independent integral here: more points change little."""
    runs = []
    api.suave_points(PTS)
    k = np.array(case['k'][:2]) * (0.2 if case['what'] == 'A2' else 1.)     # as for A below
    for finer in (False, True):
        s = {'spectrum2': api.P.Spectrum2Loop, 'A2': api.P.A2Loop}[case['what']]()
        s.set_verbosity('quiet')
        s.set_pk_lin(tk, tp)
        if finer:
            for name, n in FINER[case['what']].items():
                if n: s.set_precision(name, n=n)
        s.set_terms(k)
        s.run_terms(nthreads=case['nthreads'], **({'a': case['a'], 'b': case['b']} if case['what'] == 'spectrum2' else {}))
        runs.append({c: np.array(s[c]) for c in s.columns})
    n = 0
    for col in runs[0]:
        x, y = (r[col].reshape(len(k), -1) for r in runs)
        scale = np.abs(y).max(axis=-1)[:, None]
        if stats is not None:
            for i in range(len(k)): stats.append((case['what'], col, k[i], (np.abs(x - y) / scale)[i].max(), (np.abs(x - y) / scale)[i].max(), 0.))
        elif not (np.abs(x - y) <= REL[case['what']] * scale).all():
            raise Violation('%s %s with the default settings: %r; with more points: %r' % (case['what'], col, x.tolist(), y.tolist()))
        n += x.size
    return {'nontrivial': True, 'labels': [case['what']], 'comparisons': n}


def check(case, api, stats=None):
    t = case['table']
    tk, tp = gen.table(t)
    if case['what'] in FINER: return refine(case, api, tk, tp, stats)
    P = power(t)
    s = {'spectrum': api.P.Spectrum1Loop, 'bias': api.P.Bias1Loop, 'A': api.P.A1Loop, 'B': api.P.B1Loop}[case['what']]()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    if case['x'] > 1:
        for name, n in POINTS[case['what']].items(): s.set_precision(name, n=n * case['x'])
    k = np.array(case['k']) * (0.2 if case['what'] == 'A' else 1.)     # 20 directions do not resolve |k - q| << k well at larger k
    s.set_terms(k)
    kw = {'a': case['a'], 'b': case['b']} if case['what'] == 'spectrum' else {}
    s.run_terms(nthreads=case['nthreads'], **kw)
    n = 0
    for i, kk in enumerate(k):
        want = {'spectrum': lambda: spectrum_1loop(P, kk, case['a'], case['b']), 'bias': lambda: bias(P, kk, tk[0], tk[-1]),
                'A': lambda: A(P, kk, tk[0], tk[-1]), 'B': lambda: B(P, kk)}[case['what']]()
        for col, (val, mag) in want.items():
            got = s[col][i] if isinstance(col, str) else s[col[0]][i, col[1]]
            if stats is not None: stats.append((case['what'], col, kk, abs(got - val) / (abs(val) + 1e-300), abs(got - val) / mag, abs(got - val) / tolerance(case, col if isinstance(col, str) else 'pk', mag)))
            elif not abs(got - val) <= tolerance(case, col if isinstance(col, str) else 'pk', mag):
                raise Violation('%s %s at k = %r with the default settings: %r, the integral is %r (contributions of either sign: %.3g)' % (case['what'], col, kk, got, val, mag))
            n += 1
    return {'nontrivial': n > 0, 'labels': [case['what']], 'comparisons': n}
