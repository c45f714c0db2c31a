"""Two-loop part of the one-point propagator."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation
from vf.props import c05

ID = 'C06'
RULE = ('a case is a tabulated spectrum, wavenumbers, the quadratures of the one- and two-loop propagators, a pair of fields and a '
        'number of threads; non-trivial: at least two different scales in the two-loop integral, or one scale compared with the '
        'fifth-order kernel of perturbation theory')
CASES = {'quick': 600, 'thorough': 12000}
ASSUMPTIONS = ['k > 0; scales q/k in [1e-3, 1e3]', 'the kernel is the published fit (Taruya et al. 2012); the fit is compared with the exact angular '
               'average of the fifth-order kernel within 16% for one or two scales between 0.02 k and 30 k', 'the fit coefficients are those of the original RegPT code']

LD = np.longdouble


def beta_digits(theta, q1, q2):
    import mpmath
    with mpmath.workdps(70):
        y = abs(mpmath.mpf(q1) - mpmath.mpf(q2)) / (mpmath.mpf(q1) + mpmath.mpf(q2))
        y2, L = y * y, mpmath.log(y)
        if not theta:
            v = 2 * (1 + y2) * (-11191 + 118054 * y2 - 18215 * y2**2 + 18215 * y2**4 - 118054 * y2**5 + 11191 * y2**6
                                + 120 * y2**2 * (3467 - 790 * y2 + 3467 * y2**2) * L) / (429975 * (y2 - 1)**7)
        else:
            v = 2 * (1 + y2) * (-54373 + 562162 * y2 - 408245 * y2**2 + 408245 * y2**4 - 562162 * y2**5 + 54373 * y2**6
                                + 120 * y2**2 * (14561 - 10690 * y2 + 14561 * y2**2) * L) / (4729725 * (y2 - 1)**7)
        return LD(float(v))


def beta(theta, q1, q2):
    """Closed form, in extended precision, and the limits where it is 0/0."""
    y = (np.abs(q1 - q2) / (q1 + q2)).astype(LD)
    y2 = np.minimum(y, LD(0.99999))**2
    lo = y < 1e-9
    with np.errstate(all='ignore'):
        L = np.log(np.where(lo, LD(0.5), np.minimum(y, LD(0.99999))))
        y4, y6, y8, y10, y12 = (y2**i for i in (2, 3, 4, 5, 6))
        if not theta:
            v = 2 * (1 + y2) * (-11191 + 118054 * y2 - 18215 * y4 + 18215 * y8 - 118054 * y10 + 11191 * y12
                                + 120 * y4 * (3467 - 790 * y2 + 3467 * y4) * L) / (429975 * (y2 - 1)**7)
            zero = LD(22382) / 429975
        else:
            v = 2 * (1 + y2) * (-54373 + 562162 * y2 - 408245 * y4 + 408245 * y8 - 562162 * y10 + 54373 * y12
                                + 120 * y4 * (14561 - 10690 * y2 + 14561 * y4) * L) / (LD(4729725) * (y2 - 1)**7)
            zero = LD(2 * 54373) / 4729725
    v = np.where(lo, zero, v)
    d = 1 - y
    for i in zip(*np.nonzero(d < 0.1)):       # digits are lost
        v[i] = beta_digits(theta, float(q1[i]), float(q2[i]))
    tol = np.where(d < 0.0501, 2e-8 * (d / 0.05)**5 + 1e-15, 2e-14 / (1. - y2.astype('f8'))**7 + 1e-13)
    tol = np.where(y < 0.0101, 1e-6 * (y / 0.01)**4 + 1e-13, tol)
    return v.astype('f8'), tol.astype('f8')


def fit(theta, x1, x2):
    """Kernel of the two-loop propagator without the product of one-loop ones, and its tolerance."""
    r = np.sqrt(x1**2 + x2**2)
    s = x1 * x2 / r
    u = np.sqrt(2.) * s
    if not theta:
        c = 0.02088557981734545 / (35.09866396385646 * s**4 + 4.133811416743832 * s**2 + 1.) - 0.076100391588544 * s**3 / (77.79670692480381 * s**6 + 1.)
        d = -0.022168478217299517 / (7.030631093970638 * r**4 + 2.457866449142683 * r**2 + 1.) + 0.009267495321465601 * r**2 / (4.11633699497035 * r**10 + 1.)
        e = 0.3191221482038663 * u**4 / (1.3549058352752525 * u**4 + 1.) + 1.2805575495849764 / (18.192939946270577 * u**4 + 3.98817716852858 * u**2 + 1.) + 0.764469131436698
    else:
        c = -0.008217140060512867 / (42.14072830553836 * s**4 + 1.367564560397748 * s**2 + 1.) + 0.01099093588476197 * s**3 / (28.490424851390667 * s**8 + 1.)
        d = 0.008023147297149955 / (2.238261369090066 * r**5 + 1.) - 0.006173880966928251 * r**2 / (0.4711737436482179 * r**5 + 1.)
        e = (1.528058751211026 * (2.4414566000839355 * u**4 + 1.8616263354608626 * u**2) / (2.4414566000839355 * u**4 + 1.)
             + 2.5227965281961247 / (0.0028106312591877226 * u**4 + 1.0332351481570086 * u**2 + 1.) - 0.528058751211026)
    b, tb = beta(theta, x1, x2)
    return -(b - c - d) * e / r**2, (tb + 1e-13 * (np.abs(b) + np.abs(c) + np.abs(d))) * np.abs(e) / r**2


def exact(x1, x2, n=18):
    """15 <F5(k,q1,-q1,q2,-q2)> - 1/2 (3 <F3>)(3 <F3>), for F and G, at k = 1."""
    m, w = np.polynomial.legendre.leggauss(n)
    ph = (np.arange(n) + 0.5) * 2. * np.pi / n
    m1, m2, p = np.meshgrid(m, m, ph, indexing='ij')
    wt = w[:, None, None] * w[None, :, None] / n / 4. + 0. * p
    q1 = x1 * np.stack([np.sqrt(1. - m1**2), 0. * m1, m1], -1)
    q2 = x2 * np.stack([np.sqrt(1. - m2**2) * np.cos(p), np.sqrt(1. - m2**2) * np.sin(p), m2], -1)
    k = np.zeros(q1.shape)
    k[..., 2] = 1.
    F5, G5 = spt.fg_sym([k, q1, -q1, q2, -q2])
    Fa, Ga = spt.fg3_avg(1., x1)
    Fb, Gb = spt.fg3_avg(1., x2)
    pf, pg = 4.5 * float(Fa) * float(Fb), 4.5 * float(Ga) * float(Gb)
    tf, tg = float(15. * (F5 * wt).sum() - pf), float(15. * (G5 * wt).sum() - pg)
    return (tf, 0.16 * abs(tf) + 1e-3 * pf), (tg, 0.16 * abs(tg) + 1e-3 * pg)


@st.composite
def strategy_(draw):
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])))),
            'g1': draw(cfg.qprec(1, 5)), 'g2': draw(st.one_of(cfg.qprec(1, 7), cfg.ratio_prec(), cfg.ratio_prec())),
            'k': draw(st.lists(cfg.kreltoken(), min_size=1, max_size=4)),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])),
            'nthreads': draw(st.sampled_from([1, 1, 2, 8])), 'exact': draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return strategy_()


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.Spectrum2Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    cfg.cheap_2loop(s)
    api.suave_points(np.full((1, 5), 0.4))
    g1 = cfg.apply(s, 'gamma1_1loop_q', case['g1'], tk)
    g2 = cfg.apply(s, 'gamma1_2loop_q', case['g2'], tk)
    q1, w1 = ref.qgrid(tk, g1.q)
    q2, w2 = ref.qgrid(tk, g2.q)
    k = cfg.kvals(tk, case['k'], q2)
    s.set_terms(k)
    s.run_terms(a=case['a'], b=case['b'], nthreads=case['nthreads'])
    p1, a1 = ref.find_pk(tk, tp, q1, g1.poly, cond=True)
    p2, a2 = ref.find_pk(tk, tp, q2, g2.poly, cond=True)
    labels, n = set(), 0
    for i, kk in enumerate(k):
        x1, x2 = q1 / kk, q2 / kk
        if x1.min() < 1e-3 or x1.max() > 1e3 or x2.min() < 1e-3 or x2.max() > 1e3: continue
        y = np.abs(q2[:, None] - q2) / (q2[:, None] + q2)
        if (y > 0.95).any(): labels.add('far apart')
        if ((y > 0) & (y < 0.01)).any(): labels.add('close')
        for c in 'ab':
            theta = case[c] == 'theta'
            one, tol1 = c05.gamma1_1loop(theta, kk, q1, w1, p1)
            tol1 += 1e-11 * (np.abs(q1**3 * w1 * a1) * np.minimum(1., 1. / x1**2)).sum() / c05.TWOPI2
            got = s['gamma1%s_1loop' % c][i]
            if not abs(got - one) <= tol1: raise Violation('gamma1%s_1loop at k = %r: %r, expected %r' % (c, kk, got, one))
            f, t = fit(theta, x2[:, None] + 0. * x2, x2 + 0. * x2[:, None])
            wq = w2 * q2**3
            pp = (wq * p2)[:, None] * (wq * p2)
            aa = (wq * a2)[:, None] * (wq * a2)
            want = (pp * f).sum() / (4. * np.pi**4) + 0.5 * one**2
            tol = ((np.abs(pp) * t).sum() + 1e-11 * (aa * np.abs(f)).sum()) / (4. * np.pi**4) + tol1 * abs(one) + 1e-12 * one**2
            got = s['gamma1%s_2loop' % c][i]
            if not abs(got - want) <= tol:
                raise Violation('gamma1%s_2loop (%s) at k = %r: %r, expected %r +- %.1e' % (c, case[c], kk, got, want, tol))
            n += 2
            if case['exact'] and len(q2) <= 2 and i == 0 and x2.min() > 0.02 and x2.max() < 30. and (p2 > 0.).all():
                want, tol = 0.5 * one**2, 0.
                for ia in range(len(q2)):
                    for ib in range(ia + 1):
                        v, dv = exact(x2[ia], x2[ib])[1 if theta else 0]
                        want += (1. if ia == ib else 2.) * pp[ia, ib] * v / (4. * np.pi**4)
                        tol += (1. if ia == ib else 2.) * abs(pp[ia, ib]) * dv / (4. * np.pi**4)
                if not abs(got - want) <= tol + 1e-6 * one**2:
                    raise Violation('gamma1%s_2loop (%s) at k = %r: %r, from the fifth-order kernel %r +- %.1e' % (c, case[c], kk, got, want, tol))
                labels.add('fifth order')
                n += 1
    return {'nontrivial': bool(n and (len(q2) > 1 or 'fifth order' in labels)), 'labels': sorted(labels), 'comparisons': n}
