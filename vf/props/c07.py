"""One-loop part of the two-point propagator in the 2-loop spectrum."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation
from vf.props import c05

ID = 'C07'
RULE = ('a case is a tabulated spectrum, a triangle of external wavenumbers with sides up to 200 times each other, loop momenta placed '
        'relative to its sides (equal to one within 0.1%, equal sides, far below, far above, anywhere), a pair of fields; non-trivial: '
        'at least one live triangle within the domain whose one-loop kernel was compared with the fourth-order kernel')
CASES = {'quick': 4000, 'thorough': 40000}
ASSUMPTIONS = ['external sides within a factor 200 of each other, loop momentum between 1/50 of the smallest and 90 times the largest',
               'tolerance, relative to the average of |F4|: 1.5e-4, more where the closed form cancels (growing with the fourth power of the ratio of the sides for a loop momentum within 0.1% of one, '
               'or within 3% of one for equal sides) and for the expansion at elongated triangles']


def strategy(tier):
    return strategy_()


@st.composite
def inner(draw):
    base = draw(st.sampled_from(['k', 'q', 'kq', 'k', 'q', 'kq', 'min', 'max']))
    kind = draw(st.integers(0, 3))
    if kind == 0: r = gen.rnd(1. + draw(gen.fl(-1.5e-3, 1.5e-3, 4)), 8)
    elif kind == 1 and draw(st.booleans()):
        # where the expansions are used: far above the smallest side, below the largest
        base, r = draw(st.sampled_from(['max', 'k'])), draw(st.one_of(gen.logfl(1., 12., 4), gen.logfl(60., 400., 4), gen.logfl(0.3, 12., 4)))
    elif kind == 1: r = gen.rnd(draw(st.sampled_from([0.1, 10., 50., 1.])) * (1. + draw(gen.fl(-0.05, 0.05, 3))), 6)
    else: r = draw(gen.logfl(0.03, 30., 4))
    return [base, r, draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([None, 'poly', 'lin']))]


@st.composite
def strategy_(draw):
    x = draw(st.one_of(gen.logfl(0.15, 8., 4), gen.logfl(0.006, 170., 4), gen.logfl(0.006, 0.2, 4), gen.logfl(8., 170., 4)))
    kind = draw(st.integers(0, 2))
    ratio = 1. + draw(gen.logfl(1e-3, 0.05, 4)) if kind == 0 else 1. + draw(gen.logfl(0.05, 5., 4))
    if x < 0.5: ratio = max(ratio, (1. - x) / x * draw(gen.fl(1.02, 2., 3)))
    if x > 8.: ratio = 1. + draw(gen.logfl(0.05, 1., 4))
    inn = [draw(inner()), draw(inner())]
    nmu = draw(st.sampled_from([1, 1, 2]))
    special = draw(st.integers(0, 11))
    if special == 11:
        # the expansion for triangles with one side far below the loop momentum, the others close to it
        x, nmu, ratio = draw(gen.fl(10.5, 24., 3)), 1, 1. + draw(gen.fl(0.15, 0.6, 3))
        for i in (0, 1): inn[i] = ['k', gen.rnd(140. + draw(gen.fl(0., 1., 3)) * max(0., 6.8 * x - 140.), 6) if x > 20. else gen.rnd(9.5 * x * draw(gen.fl(1., 1.05, 3)), 6), 1, inn[i][3]]
    elif special == 10:
        x = draw(gen.logfl(0.006, 0.15, 4))
        ratio = (1. - x) / x * draw(gen.fl(1.02, 2., 3))
        for i in (0, 1): inn[i] = ['k', gen.rnd(75. * x * (9. / (75. * x))**draw(gen.fl(0., 1., 3)), 6), 1, inn[i][3]] if 75. * x < 9. else inn[i]
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])), kmin=(1e-4, 3e-3), kmax=(3., 30.))),
            'k': draw(gen.logfl(0.01, 1., 4)), 'x': x, 'ratio': gen.rnd(ratio, 7), 'nq': draw(st.sampled_from([2, 2, 3])),
            'nmu': nmu, 'interp': [draw(st.sampled_from([None, 'poly', 'lin'])) for i in range(2)],
            'd': inn[0], 't': inn[1], 'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])),
            'nthreads': draw(st.sampled_from([1, 1, 4])), 'more': draw(st.lists(gen.logfl(0.7, 1.4, 3), max_size=1))}


def tol_kernel(k1, k2, k3, q):
    """Relative to the average of |F4|: what the expansions and the cancellation of the closed forms amount to."""
    near, ratio = min(abs(x / q - 1.) for x in (k1, k2, k3)), max(k1, k2, k3) / min(k1, k2, k3)
    t = 1.5e-4 if near >= 2e-3 else 3e-4
    if near < 2e-3 or (near < 0.03 and abs(k2 / k1 - 1.) < 2.1e-2): t += 1e-6 * ratio**4
    if near < 5e-5: t += 0.15 + 5e-5 * ratio**4
    if q > 49. * min(k1, k2) and abs(k1 * k1 - k3 * k3) < 1.1 * q * q: t += min(0.3, 10. / ratio**2)     # expansion at elongated triangles
    if q > 20. * min(k1, k2): t += 3e-3
    elif ratio > 20.: t += 1e-3
    return t


def domain(sides, qs):
    """Where the closed forms hold in double precision."""
    lo, hi = min(sides), max(sides)
    return hi < 200. * lo and 0.02 * lo < qs.min() and qs.max() < 90. * hi


def gamma2_1loop(theta, k1, k2, k3, q, w, p, amp):
    """6 int d3q/(2pi)^3 F4(k1,k2,q,-q) P(q): sum over the nodes, and its tolerance."""
    val = tol = 0.
    for i, qq in enumerate(q):
        F, G, aF, aG = spt.fg4_avg(k1, k2, k3, qq)
        f, a = (G, aG) if theta else (F, aF)
        c = 24. * np.pi * qq**3 * w[i] / (2. * np.pi)**3
        val += c * f * p[i]
        tol += abs(c) * a * (abs(p[i]) * tol_kernel(k1, k2, k3, qq) + 1e-11 * amp[i])
    return val, tol


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.Spectrum2Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    cfg.cheap_2loop(s)
    api.suave_points(np.full((1, 5), 0.4))
    k0 = case['k']
    # nodes of the outer quadrature: the first one at x k
    q1, span = case['x'] * k0, np.log(case['ratio'])
    x0 = np.polynomial.legendre.leggauss(case['nq'])[0]
    half = span / (x0[1] - x0[0])
    mid = np.log(q1) - x0[0] * half
    g2 = cfg.apply(s, 'gamma2_tree_q', {'n': case['nq'], 'range': ['abs', np.exp(mid - half), np.exp(mid + half)], 'interp': case['interp'][0]}, tk)
    mup = cfg.apply(s, 'gamma2_tree_mu', {'n': case['nmu'], 'interp': case['interp'][1]}, tk)
    q, w = ref.qgrid(tk, g2.q)
    mu, wmu = ref.mugrid(k0, q, q[0], q[-1], case['nmu'], half=True)
    kq0 = np.sqrt(max(k0**2 + q[0]**2 - 2. * k0 * q[0] * mu[0, 0], 1e-12))
    side = {'k': k0, 'q': q[0], 'kq': kq0, 'min': min(k0, q[0], kq0), 'max': max(k0, q[0], kq0)}
    inn = {}
    for name in 'dt':
        base, r, n, interp = case[name]
        c, wid = side[base] * r, 0.3
        if n == 2: c = c * np.exp(wid / np.sqrt(3.))     # first node there
        inn[name] = cfg.apply(s, 'gamma2%s_1loop_q' % name, {'n': n, 'range': ['abs', c * np.exp(-wid), c * np.exp(wid)], 'interp': interp}, tk)
    grids = {}
    for name in 'dt':
        qi, wi = ref.qgrid(tk, inn[name].q)
        pi, ai = ref.find_pk(tk, tp, qi, inn[name].poly, cond=True)
        grids[name == 't'] = (qi, wi, pi, ai)
    k = np.array([k0] + [k0 * r for r in case['more']])
    s.set_terms(k)
    s.run_terms(a=case['a'], b=case['b'], nthreads=case['nthreads'])
    ta, tb = case['a'] == 'theta', case['b'] == 'theta'
    p, amp = ref.find_pk(tk, tp, q, g2.poly, cond=True)
    n, labels = 0, set()
    for i, kk in enumerate(k):
        want, tol, nlive = c05.tree_tree(ta, tb, kk, q, w, p, amp, mup, tk, tp)
        got = s['pk_gamma2_tree_tree'][i]
        if not abs(got - want) <= tol: raise Violation('pk_gamma2_tree_tree at k = %r: %r, expected %r +- %.1e' % (kk, got, want, tol))
        mu, wmu = ref.mugrid(kk, q, q[0], q[-1], case['nmu'], half=True)
        val, err, live, ok = np.zeros(2), np.zeros(2), 0, True
        for j in range(len(q)):
            for m in range(case['nmu']):
                if abs(wmu[j, m]) <= 1e-9: continue
                kq = np.sqrt(kk**2 + q[j]**2 - 2. * kk * q[j] * mu[j, m])
                sides = (kq, q[j], kk)
                allq = np.concatenate([grids[ta][0], grids[tb][0]])
                if not domain(sides, allq):
                    ok = False
                    break
                pk, ak = ref.find_pk(tk, tp, np.array([kq]), mup.poly, cond=True)
                tr = [float(spt.f2(t, kq, q[j], kk)) for t in (ta, tb)]
                lo = [gamma2_1loop(t, kq, q[j], kk, *grids[t]) for t in (ta, tb)]
                c = 4. * q[j]**3 * w[j] * wmu[j, m] / (4. * np.pi**2)
                c1, c2 = c * p[j] * pk[0], abs(c) * (amp[j] * ak[0]) * 1e-10
                val += c1 * np.array([tr[0] * lo[1][0] + tr[1] * lo[0][0], lo[0][0] * lo[1][0]])
                mag = (1. + kk / kq + (kk / q[j])**2)
                err += abs(c1) * np.array([abs(tr[0]) * lo[1][1] + abs(tr[1]) * lo[0][1], abs(lo[0][0]) * lo[1][1] + abs(lo[1][0]) * lo[0][1] + lo[0][1] * lo[1][1]])
                err += c2 * mag * np.array([abs(lo[0][0]) + abs(lo[1][0]), abs(lo[0][0] * lo[1][0])])
                live += 1
                for qq in allq:
                    near = min(abs(x / qq - 1.) for x in sides)
                    if near < 1e-3: labels.add('loop momentum equal to a side')
                    if qq > 10. * max(sides): labels.add('loop momentum far above')
                    if qq < 0.1 * min(sides): labels.add('loop momentum far below')
                    if min(sides) * 50. < qq < 10. * max(sides) and min(kq, q[j]) == min(sides): labels.add('elongated')
                    if 100. * kk < qq < 10. * max(sides) and kk == min(sides): labels.add('collapsed')
                if abs(kq / q[j] - 1.) < 0.02: labels.add('equal sides')
            if not ok: break
        if not ok or not live: continue
        for col, v, e in zip(['pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop'], val, err):
            got = s[col][i]
            if not abs(got - v) <= e:
                raise Violation('%s (%s, %s) at k = %r: %r, expected %r +- %.1e' % (col, case['a'], case['b'], kk, got, v, e))
            n += 1
    return {'nontrivial': n > 0, 'labels': sorted(labels), 'comparisons': n}
