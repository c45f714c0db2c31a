"""One-loop bias terms against their definitions as mode-coupling integrals."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation

ID = 'C09'
RULE = ('a case is a tabulated spectrum, wavenumbers (relative to the quadrature nodes), precision settings, a UV cutoff and a number '
        'of threads; non-trivial: couplings left for at least one k, and settings different from the defaults')
CASES = {'quick': 1200, 'thorough': 30000}
ASSUMPTIONS = ['k > 0', 'the integrals are the Gauss-Legendre sums with the number of points the user set: the truncation error of the quadrature is not part of the property']
COLUMNS = ['pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']


def expected(k, q, w, pq, aq, mup, tk, tp):
    """{column: (value, tolerance)}, number of couplings"""
    out = {}
    live = 0
    for half in (True, False):
        m = ref.Modes(k, q, w, mup.n, half)
        pr, ar = ref.find_pk(tk, tp, m.r, mup.poly, cond=True)
        P, A = pq[:, None], aq[:, None]
        mu12 = m.dot() / (m.q * m.r)
        S2 = mu12**2 - 1. / 3.
        dmu = m.big**2 / (m.q * m.r)               # rounding of mu12, relative to the machine's
        dS = 1. + 2. * (np.abs(mu12) + 1e-16 * dmu) * dmu
        live = max(live, int(m.ok.sum()))
        if half:
            for col, th, s in [('pk_b2d', 0, 0), ('pk_bs2d', 0, 1), ('pk_b2t', 1, 0), ('pk_bs2t', 1, 1)]:
                f = spt.f2(th, m.q, m.r, k)
                mag = (1. + k / m.q + (k / m.q)**2)
                val = P * pr * f * (S2 if s else 1.)
                out[col] = ((m.wt * val).sum(), 1e-12 * (m.slack * mag * A * ar * (dS if s else 1.)).sum() + 1e-300)
        else:
            one = np.ones_like(m.mu)
            D2 = 2. / 7. * (m.mu**2 - 1.)
            for col, val, mag in [('pk_b22', 0.5 * P * (pr - P), A * (ar + A)),
                                  ('pk_b2s2', 0.5 * P * (pr * S2 - 2. / 3. * P), A * (ar * dS + A)),
                                  ('pk_bs22', 0.5 * P * (pr * S2**2 - 4. / 9. * P), A * (ar * dS + A)),
                                  ('sigma3sq', 105. / 16. * P * (D2 * S2 + 8. / 63.), 10. * A * dS * one)]:
                out[col] = ((m.wt * val).sum(), 1e-12 * (m.slack * mag).sum() + 1e-300)
    return out, live


@st.composite
def strategy_(draw):
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])))),
            'q': draw(st.one_of(cfg.qprec(2, 10), cfg.ratio_prec())), 'mu': draw(cfg.muprec(1, 6, default=True)),
            'pkinterp': draw(st.sampled_from([None, 'poly', 'lin'])), 'k': draw(st.lists(cfg.kreltoken(), min_size=1, max_size=5)),
            'nthreads': draw(st.sampled_from([1, 1, 2, 3, 8])), 'uv': draw(st.sampled_from([None, None, 0.25, 1., 3.]))}


def strategy(tier):
    return strategy_()


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.Bias1Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    g = cfg.apply(s, 'bias_1loop_q', case['q'], tk)
    mu = cfg.apply(s, 'bias_1loop_mu', case['mu'], tk)
    poly = cfg.interp_setting(s, 'bias_1loop', case['pkinterp'])
    if case['uv']: s.set_running_uvcutoff('bias_1loop', uvcutoff=case['uv'])
    q, w = ref.qgrid(tk, g.q)
    pq, aq = ref.find_pk(tk, tp, q, g.poly, cond=True)
    k = cfg.kvals(tk, case['k'], q)
    s.set_terms(k)
    s.run_terms(nthreads=case['nthreads'])
    pl, al = ref.find_pk(tk, tp, k, poly, cond=True)
    sd = ref.sigmad2(tk, tp, k, case['uv'] or 0.5)
    n = live = 0
    for i, kk in enumerate(k):
        if s['k'][i] != kk: raise Violation('k changed: %r, given %r' % (s['k'][i], kk))
        if not abs(s['pk_lin'][i] - pl[i]) <= 1e-11 * al[i]: raise Violation('pk_lin(%r) = %r, expected %r' % (kk, s['pk_lin'][i], pl[i]))
        if not abs(s['sigmad2'][i] - sd[i]) <= 1e-11 * sd[i] + 1e-300: raise Violation('sigmad2(%r) = %r, expected %r' % (kk, s['sigmad2'][i], sd[i]))
        want, m = expected(kk, q, w, pq, aq, mu, tk, tp)
        live += m
        for col in COLUMNS:
            v, tol = want[col]
            if not abs(s[col][i] - v) <= tol: raise Violation('%s at k = %r: %r, expected %r +- %.1e' % (col, kk, s[col][i], v, tol))
            n += 1
    return {'nontrivial': live > 0 and (case['mu'] is not None or not g.poly),
            'labels': ['couplings' if live else 'none', 'interp ' + str(case['pkinterp'])], 'comparisons': n}
