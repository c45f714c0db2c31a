"""One-loop cubic redshift-space term (A) against its definition with the tree-level bispectrum."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation

ID = 'C10'
RULE = ('a case is a tabulated spectrum, wavenumbers (relative to the quadrature nodes: also q << k, q >> k, q = k), precision settings, '
        'a UV cutoff and a number of threads; non-trivial: couplings left for at least one k, and settings different from the defaults')
CASES = {'quick': 800, 'thorough': 20000}
ASSUMPTIONS = ['k > 0', 'the integrals are the Gauss-Legendre sums with the number of points the user set; the part proportional to P(k) P(q) is integrated over all directions, where there are any within the range']
LD = np.longdouble


def both(k, q, mu):
    s2 = (1. - mu) * (1. + mu)
    r = np.sqrt(k * k + q * q - 2. * k * q * mu)
    return ref.rsd_a(k, q, mu, s2, r), ref.rsd_a(k, r, (k - q * mu) / r, s2 * (q / r)**2, q), r


def part(tq, tr, bis):
    """Sums over the fields: bis(a, b, c) is the bispectrum with the fields a on q, b on k-q, c on k."""
    out = [0.] * 5
    for (X, Y), cols in tq.items():
        b = bis(1, X, Y)
        for c, g in cols.items(): out[c] = out[c] + g * b
    for (X, Y), cols in tr.items():
        b = bis(X, 1, Y)
        for c, g in cols.items(): out[c] = out[c] + g * b
    return out


def a_kernel(k, q, n=60):
    """Integral over the cosine of the part that goes with P(k) P(q), for an array q."""
    q = q.astype(LD)
    k = LD(k)
    delta = np.clip((q - k)**2 / (2. * q * k), LD(1e-14), LD(10.))[:, None]
    x, w = np.polynomial.legendre.leggauss(n)
    lo, hi = np.log(delta), np.log(2. + delta)
    u = 0.5 * (hi - lo) * (x + 1.) + lo
    omm = np.exp(u) - delta
    wmu = w * 0.5 * (hi - lo) * np.exp(u)
    Q = q[:, None] + 0. * omm
    mu = 1. - omm
    s2 = omm * (2. - omm)
    r = np.sqrt((k - Q)**2 + 2. * k * Q * omm)
    tq = ref.rsd_a(k, Q, mu, s2, r)
    tr = ref.rsd_a(k, r, (k - Q * mu) / r, s2 * (Q / r)**2, Q)
    return [(v * wmu).sum(-1).astype('f8') for v in part(tq, tr, lambda a, b, c: 2. * spt.f2(b, Q, k, r))]


def expected(k, q, w, pq, aq, pk, ak, mup, tk, tp):
    m = ref.Modes(k, q, w, mup.n, False)
    pr, ar = ref.find_pk(tk, tp, m.r, mup.poly, cond=True)
    tq, tr, Q, r = ref.rsd_a_both(m)
    K = LD(k)
    live = int(m.ok.sum())
    one = part(tq, tr, lambda a, b, c: 2. * spt.f2(a, r, K, Q))          # with P(r) P(k)
    two = part(tq, tr, lambda a, b, c: 2. * spt.f2(c, Q, r, K))          # with P(q) P(r)
    three = a_kernel(k, q)                                               # with P(q) P(k)
    x = q / k
    x_ = x[:, None]
    xmu2 = (m.r / k)**4
    mag1 = 20. * x_ * np.maximum(1., x_**2) / xmu2                       # what is added up, in units of q^2 / k^2
    mag2 = 20. * np.maximum(1., 1. / x_**2) * x_**0 * np.maximum(1., x_**2) / xmu2
    # (k-q)^2 itself is a difference
    dr = 1. + m.big**2 / m.r**2
    err = 1e-12 * (m.slack * (mag1 * abs(pk) * ar + mag1 * ak * np.abs(pr) + mag2 * aq[:, None] * ar) * dr).sum()
    f3 = np.where(m.ok.any(-1), q**3 * w / (4. * np.pi**2), 0.)        # left out with the rest where the range of directions is empty
    # the closed form of the part without P(k-q) cancels at large and small x
    tol3 = (f3 / x**2 * (aq * abs(pk) + np.abs(pq) * ak) * (3e-15 * np.where((x > 1e2) | (x < 1e-4), 1., np.maximum(x**4, 1. / x**2)) + 1e-12)).sum()
    if ((x > 99.99) & (x < 100.01)).any() or ((x > 0.9999e-4) & (x < 1.0001e-4)).any(): tol3 = tol3 + (f3 / x**2 * np.abs(pq) * abs(pk)).sum() * 1e-6
    # whether there are any directions can hang on rounding
    lo, hi = np.maximum(-1., (1. + x**2 - (q[-1] / k)**2) / (2. * x)), np.minimum(1., (1. + x**2 - (q[0] / k)**2) / (2. * x))
    unsure = (np.abs(lo - 1.) < 1e-9) | (np.abs(hi + 1.) < 1e-9) | ((np.abs(hi - lo) < 1e-9) & (hi != lo))
    for c in range(5): tol3 = tol3 + (unsure * q**3 * w / (4. * np.pi**2) * np.abs(three[c] * pq * pk)).sum()
    vals = []
    for c in range(5):
        v = (m.wt * (one[c] * pr * pk + two[c] * pq[:, None] * pr)).sum() + (f3 * three[c] * pq * pk).sum()
        vals.append(float(v))
    return vals, float(err + tol3) + 1e-300, live


@st.composite
def strategy_(draw):
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])))),
            'q': draw(st.one_of(cfg.qprec(2, 8), cfg.qprec(2, 8), cfg.ratio_prec(), cfg.qprec(1, 1))), 'mu': draw(cfg.muprec(1, 6, default=True)),
            'pkinterp': draw(st.sampled_from([None, 'poly', 'lin'])), 'k': draw(st.lists(cfg.kreltoken(), min_size=1, max_size=4)),
            'nthreads': draw(st.sampled_from([1, 1, 2, 3, 8])), 'uv': draw(st.sampled_from([None, None, 0.25, 1., 3.]))}


def strategy(tier):
    return strategy_()


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.A1Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    g = cfg.apply(s, 'A_1loop_q', case['q'], tk)
    mu = cfg.apply(s, 'A_1loop_mu', case['mu'], tk)
    poly = cfg.interp_setting(s, 'A_1loop', case['pkinterp'])
    if case['uv']: s.set_running_uvcutoff('A_1loop', uvcutoff=case['uv'])
    q, w = ref.qgrid(tk, g.q)
    pq, aq = ref.find_pk(tk, tp, q, g.poly, cond=True)
    k = cfg.kvals(tk, case['k'], q)
    s.set_terms(k)
    s.run_terms(nthreads=case['nthreads'])
    pl, al = ref.find_pk(tk, tp, k, poly, cond=True)
    pi, ai = ref.find_pk(tk, tp, k, g.poly, cond=True)
    sd = ref.sigmad2(tk, tp, k, case['uv'] or 0.5)
    n = live = 0
    if s['pk'].shape != (len(k), 5): raise Violation('pk has the shape %r for %d wavenumbers' % (s['pk'].shape, len(k)))
    for i, kk in enumerate(k):
        if s['k'][i] != kk: raise Violation('k changed: %r, given %r' % (s['k'][i], kk))
        if not abs(s['pk_lin'][i] - pl[i]) <= 1e-11 * al[i]: raise Violation('pk_lin(%r) = %r, expected %r' % (kk, s['pk_lin'][i], pl[i]))
        if not abs(s['sigmad2'][i] - sd[i]) <= 1e-11 * sd[i] + 1e-300: raise Violation('sigmad2(%r) = %r, expected %r' % (kk, s['sigmad2'][i], sd[i]))
        x = q / kk
        if x.min() < 1e-5 or x.max() > 1e5: continue
        want, tol, m = expected(kk, q, w, pq, aq, pi[i], ai[i], mu, tk, tp)
        live += m
        for c in range(5):
            if not abs(s['pk'][i, c] - want[c]) <= tol: raise Violation('A, column %d, at k = %r: %r, expected %r +- %.1e' % (c, kk, s['pk'][i, c], want[c], tol))
            n += 1
    return {'nontrivial': live > 0 and (case['mu'] is not None or not g.poly),
            'labels': ['couplings' if live else 'none'], 'comparisons': n}
