"""One-loop power spectrum terms against standard perturbation theory."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation

ID = 'C05'
RULE = ('a case is a tabulated spectrum, wavenumbers (placed relative to the quadrature nodes), precision settings, a pair of '
        'fields, a UV cutoff and a number of threads; non-trivial: the tree-level mode coupling is not empty for at least one k, '
        'and one node is in the expansion around q = k (within 1%), or beyond q = 10 k, or the ranges or interpolations are not the defaults')
CASES = {'quick': 800, 'thorough': 24000}
ASSUMPTIONS = ['k > 0 and q/k in [1e-4, 1e4] for the tolerance on the loop kernels to mean something', 'at least 2 points in q for the tree coupling',
               'the integrals are the Gauss-Legendre sums with the number of points the user set: the truncation error of the quadrature is not part of the property']

TWOPI2 = 2. * np.pi**2


def tol_kernel(x):
    d = np.abs(x - 1.)
    t = 5e-12 + 3e-13 / x**2 + 1e-15 * x**2
    t = np.where(d < 0.0101, 2e-5 * (d / 0.01)**2 + 1e-10, t)
    return np.where(x > 9.999, t + 5e-8 * (10. / x)**6, t)


def gamma1_1loop(theta, k, q, w, pq):
    """Sum and tolerance. 3 int d3q/(2pi)^3 F3(k,q,-q) P(q), averaged over directions."""
    F, G = spt.fg3_avg(k, q)
    terms = 3. * q**3 * (G if theta else F) * pq * w / TWOPI2
    return terms.sum(), (np.abs(terms) * tol_kernel(q / k)).sum() + 1e-13 * np.abs(terms).sum()


def tree_tree(ta, tb, k, q, w, pq, amp, mup, tk, tp):
    """2 int d3q/(2pi)^3 F2a F2b P(q) P(|k-q|) over half of the pairs, doubled."""
    mu, wmu = ref.mugrid(k, q, q[0], q[-1], mup.n, half=True)
    qq = q[:, None] + 0. * mu
    kq = np.sqrt(np.maximum(k**2 + qq**2 - 2. * k * qq * mu, 0.))
    ok = wmu != 0.
    kq = np.where(ok, kq, qq)
    pkq, akq = ref.find_pk(tk, tp, kq, mup.poly, cond=True)
    f = spt.f2(ta, qq, kq, k) * spt.f2(tb, qq, kq, k)
    # d3q = 2 pi q^3 dlnq dmu; 2 F F P P; doubled for the half left out
    base = 2. * 2. * f * q[:, None]**3 * (w[:, None] * wmu) * 2. * np.pi / (2. * np.pi)**3
    val = (base * pq[:, None] * pkq).sum()
    # F2 is a difference of terms of order (k/q)^2, and near its zero its relative error grows
    mag = (1. + k / qq + (k / qq)**2 + (qq / k)**0)**2
    # the ends of the range in mu are known up to rounding
    err = (4. * mag * q[:, None]**3 * w[:, None] * (np.abs(wmu) + 1e-3) / (4. * np.pi**2) * amp[:, None] * akq).sum()
    return val, 1e-12 * err + 1e-300, int((ok & (np.abs(base) > 0.)).sum())


@st.composite
def strategy_(draw):
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])))),
            'g1': draw(cfg.qprec(1, 6, default=True)), 'g2': draw(cfg.qprec(2, 8)), 'mu': draw(cfg.muprec(1, 6, default=True)),
            'pkinterp': draw(st.sampled_from([None, 'poly', 'lin'])),
            'k': draw(st.lists(cfg.kreltoken(), min_size=1, max_size=5)), 'on': draw(st.sampled_from(['g1', 'g2'])),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])),
            'nthreads': draw(st.sampled_from([1, 1, 2, 3, 8])), 'uv': draw(st.sampled_from([None, None, 0.25, 1., 3.]))}


def strategy(tier):
    return strategy_()


def bad(got, want, tol): return not abs(got - want) <= tol


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.Spectrum1Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    g1 = cfg.apply(s, 'gamma1_1loop_q', case['g1'], tk)
    g2 = cfg.apply(s, 'gamma2_tree_q', case['g2'], tk)
    mu = cfg.apply(s, 'gamma2_tree_mu', case['mu'], tk)
    poly = cfg.interp_setting(s, 'spectrum_1loop', case['pkinterp'])
    if case['uv']: s.set_running_uvcutoff('spectrum_1loop', uvcutoff=case['uv'])
    q1, w1 = ref.qgrid(tk, g1.q)
    q2, w2 = ref.qgrid(tk, g2.q)
    k = cfg.kvals(tk, case['k'], q1 if case['on'] == 'g1' else q2)
    s.set_terms(k)
    s.run_terms(a=case['a'], b=case['b'], nthreads=case['nthreads'])
    ta, tb = case['a'] == 'theta', case['b'] == 'theta'
    labels, ncomp, live = [], 0, False
    pl, al = ref.find_pk(tk, tp, k, poly, cond=True)
    sd = ref.sigmad2(tk, tp, k, case['uv'] or 0.5)
    p1, a1 = ref.find_pk(tk, tp, q1, g1.poly, cond=True)
    p2, a2 = ref.find_pk(tk, tp, q2, g2.poly, cond=True)
    for i, kk in enumerate(k):
        if bad(s['k'][i], kk, 0.): raise Violation('k changed: %r, given %r' % (s['k'][i], kk))
        if bad(s['pk_lin'][i], pl[i], 1e-11 * al[i]): raise Violation('pk_lin(%r) = %r, expected %r' % (kk, s['pk_lin'][i], pl[i]))
        if bad(s['sigmad2'][i], sd[i], 1e-11 * sd[i] + 1e-300): raise Violation('sigmad2(%r) = %r, expected %r' % (kk, s['sigmad2'][i], sd[i]))
        x = q1 / kk
        if x.min() > 1e-4 and x.max() < 1e4:
            for col, th in [('gamma1a_1loop', ta), ('gamma1b_1loop', tb)]:
                want, tol = gamma1_1loop(th, kk, q1, w1, p1)
                tol += 1e-11 * (np.abs(q1**3 * w1 * a1) * np.minimum(1., 1. / x**2)).sum() / TWOPI2
                if bad(s[col][i], want, tol):
                    raise Violation('%s (%s) at k = %r: %r, expected %r +- %.1e' % (col, case['a' if col[6] == 'a' else 'b'], kk, s[col][i], want, tol))
                ncomp += 1
            labels += (['near1'] if (np.abs(x - 1.) < 0.01).any() else []) + (['x>10'] if (x > 10.).any() else [])
        want, tol, nlive = tree_tree(ta, tb, kk, q2, w2, p2, a2, mu, tk, tp)
        if bad(s['pk_gamma2_tree_tree'][i], want, tol):
            raise Violation('pk_gamma2_tree_tree (%s, %s) at k = %r: %r, expected %r +- %.1e' % (case['a'], case['b'], kk, s['pk_gamma2_tree_tree'][i], want, tol))
        ncomp += 3
        live = live or nlive > 0
        if nlive: labels.append('coupling')
    if ta != tb: labels.append('cross')
    return {'nontrivial': bool(live and ('near1' in labels or 'x>10' in labels or g1.lo != 5e-4 or not g1.poly)),
            'labels': sorted(set(labels)), 'comparisons': ncomp}
