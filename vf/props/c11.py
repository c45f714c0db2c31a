"""Cubic redshift-space term (A) with the one-loop bispectrum: the part made of one- and two-point propagators."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation
from vf.props import c05, c07, c10

ID = 'C11'
RULE = ('a case is a tabulated spectrum, a triangle of wavenumbers (any shape where loops are neglected, sides within a factor 200 where they '
        'are not), loop momenta, precision settings, interpolations, a UV cutoff, threads; non-trivial: at least one coupling compared, and '
        'loops counted or the damping below 0.999')
CASES = {'quick': 800, 'thorough': 20000}
ASSUMPTIONS = ['loop corrections are dropped where k < 0.01, q < 0.01 or |k-q| < 0.03 for the respective propagators', 'with loops: tolerances of C05 and C07 on the kernels',
               'the integrals are the Gauss-Legendre sums with the number of points the user set', 'damping above exp(-90)']


class V(object):
    """A value and what it may be off by."""

    def __init__(self, v, e=0.): self.v, self.e = v, e

    def __mul__(self, o):
        if not isinstance(o, V): return V(self.v * o, self.e * abs(o))
        return V(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e)

    def __add__(self, o):
        if not isinstance(o, V): return V(self.v + o, self.e)
        return V(self.v + o.v, self.e + o.e)


def strategy(tier):
    return strategy_()


@st.composite
def strategy_(draw):
    low = draw(st.integers(0, 2)) == 0
    c = {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])), kmin=(1e-4, 3e-3), kmax=(1., 30.), amp=draw(st.sampled_from([(1e1, 1e5), (1e2, 1e4), (1e4, 1e5)])))),
         'interp': draw(st.sampled_from([None, 'poly', 'lin'])), 'uv': draw(st.sampled_from([None, None, 0.25, 1., 3.])),
         'interpA': draw(st.sampled_from([None, 'poly', 'lin'])), 'uvA': draw(st.sampled_from([None, None, 0.25, 1., 3.])),
         'nthreads': draw(st.sampled_from([1, 1, 2, 8]))}
    if low:
        c['k'] = [draw(gen.logfl(1e-3, 0.0099, 4)) for i in range(draw(st.integers(1, 3)))]
        c['q'] = draw(st.one_of(cfg.qprec(2, 6), cfg.ratio_prec()))
        c['mu'] = draw(cfg.muprec(1, 4, default=True))
    else:
        k = draw(st.one_of(gen.logfl(0.0101, 0.05, 4), gen.logfl(0.02, 1., 4)))
        c['k'] = [k] + draw(st.lists(gen.logfl(0.7, 1.4, 3), max_size=1).map(lambda l: [gen.rnd(k * x, 5) for x in l]))
        c['x'] = draw(st.one_of(gen.logfl(0.15, 8., 4), gen.logfl(0.4, 3., 4), gen.logfl(0.008, 150., 4)))
        c['ratio'] = gen.rnd(1. + draw(gen.logfl(0.05, 5., 4)), 7)
        if c['x'] < 0.5: c['ratio'] = gen.rnd(max(c['ratio'], (1. - c['x']) / c['x'] * draw(gen.fl(1.02, 2., 3))), 7)
        c['mu'] = {'n': draw(st.sampled_from([1, 1, 2]))}
    loops = {}
    for name in ('gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'):
        loops[name] = {'n': draw(st.sampled_from([1, 1, 2])), 'c': draw(gen.logfl(0.05, 20., 3)), 'interp': draw(st.sampled_from([None, 'poly', 'lin']))}
    c['loops'] = loops
    return c


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.A2Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    api.suave_points(np.array([[0.9999, 0.9999, 0.5, 0.5, 0.5]]))         # outside of the domain: nothing from the rest
    k = np.array(case['k'])
    if 'q' in case: g = cfg.apply(s, 'A_2loop_I_q', case['q'], tk)
    else:
        n, wid = 2, 0.5 * np.log(case['ratio']) * np.sqrt(3.)
        mid = np.log(case['x'] * k[0]) + wid / np.sqrt(3.)
        g = cfg.apply(s, 'A_2loop_I_q', {'n': n, 'range': ['abs', np.exp(mid - wid), np.exp(mid + wid)]}, tk)
    mup = cfg.apply(s, 'A_2loop_I_mu', case['mu'], tk)
    poly = cfg.interp_setting(s, 'bispectrum_1loop', case['interp'])
    polyA = cfg.interp_setting(s, 'A_2loop', case['interpA'])
    if case['uv']: s.set_running_uvcutoff('bispectrum_1loop', uvcutoff=case['uv'])
    if case['uvA']: s.set_running_uvcutoff('A_2loop', uvcutoff=case['uvA'])
    grids = {}
    for name, l in case['loops'].items():
        pr = cfg.apply(s, name, {'n': l['n'], 'range': ['abs', k[0] * l['c'] * 0.8, k[0] * l['c'] * 1.3], 'interp': l['interp']}, tk)
        qi, wi = ref.qgrid(tk, pr.q)
        pi, ai = ref.find_pk(tk, tp, qi, pr.poly, cond=True)
        grids[name] = (qi, wi, pi, ai)
    s.set_terms(k)
    s.run_terms(nthreads=case['nthreads'])
    pl, al = ref.find_pk(tk, tp, k, polyA, cond=True)
    sd = ref.sigmad2(tk, tp, k, case['uvA'] or 0.5)
    if s['pk'].shape != (len(k), 5): raise Violation('pk has the shape %r for %d wavenumbers' % (s['pk'].shape, len(k)))
    q, w = ref.qgrid(tk, g.q)
    uv = case['uv'] or 0.5
    ncomp, labels, nontriv = 0, set(), False

    def lookup(x):
        v, a = ref.find_pk(tk, tp, np.array([x]), poly, cond=True)
        return V(v[0], 1e-11 * a[0])

    def gamma1(th, x, on, s2):
        if not on: return V(1.)
        v, t = c05.gamma1_1loop(th, x, *grids['gamma1_1loop_q'][:3])
        qi, wi, pi, ai = grids['gamma1_1loop_q']
        t += 1e-11 * (np.abs(qi**3 * wi * ai) * np.minimum(1., (x / qi)**2)).sum() / c05.TWOPI2
        return V(1. + 0.5 * x * x * s2 + v, t + 1e-13)

    def gamma2(th, k1, k2, k3, on, s2):
        mag = (1. + k3 / k1 + k3 / k2 + k3 * k3 / (k1 * k2) + k1 / k2 + k2 / k1)**2
        tree = V(float(spt.f2(th, k1, k2, k3)), 1e-14 * mag)
        if not on: return tree
        return tree * V(1. + 0.5 * k3 * k3 * s2) + V(*c07.gamma2_1loop(th, k1, k2, k3, *grids['gamma2t_1loop_q' if th else 'gamma2d_1loop_q']))

    for i, kk in enumerate(k):
        if s['k'][i] != kk: raise Violation('k changed: %r, given %r' % (s['k'][i], kk))
        if not abs(s['pk_lin'][i] - pl[i]) <= 1e-11 * al[i]: raise Violation('pk_lin(%r) = %r, expected %r' % (kk, s['pk_lin'][i], pl[i]))
        if not abs(s['sigmad2'][i] - sd[i]) <= 1e-11 * sd[i] + 1e-300: raise Violation('sigmad2(%r) = %r, expected %r' % (kk, s['sigmad2'][i], sd[i]))
        m = ref.Modes(kk, q, w, mup.n, True)
        tot, err, nl, known = np.zeros(5), np.zeros(5), 0, True
        for j in range(len(q)):
            for l in range(mup.n):
                qq, mu, r = q[j], m.mu[j, l], m.r[j, l]
                if not m.ok[j, l]:
                    # a range of directions empty to rounding may also be found not to be
                    lo = (kk**2 + qq**2 - q[-1]**2) / (2. * kk * qq)
                    hi = min((kk**2 + qq**2 - q[0]**2) / (2. * kk * qq), 0.5 * kk / qq)
                    if min(abs(lo - 1.), abs(hi + 1.), abs(hi - lo)) > 1e-9: continue
                    mu = np.clip(lo, -1., 1.)
                    r = np.sqrt(kk**2 + qq**2 - 2. * kk * qq * mu)
                loops = kk >= 1e-2
                if loops:
                    inside = c07.domain((kk, qq, r), np.concatenate([x[0] for x in grids.values()]))
                    if not inside or abs(qq / 1e-2 - 1.) < 1e-9 or abs(r / 3e-2 - 1.) < 1e-9:
                        known = False
                        break
                sg = [float(x) for x in ref.sigmad2(tk, tp, np.array([kk, qq, r]), uv)]
                damp = 0.5 * (kk**2 * sg[0] + qq**2 * sg[1] + r**2 * sg[2])
                if damp > 90.:
                    known = False
                    break
                P = {'k': lookup(kk), 'q': lookup(qq), 'r': lookup(r)}
                x = {'k': kk, 'q': qq, 'r': r}
                on = {'k': loops, 'q': loops and qq >= 1e-2, 'r': loops and r >= 3e-2}
                s2 = dict(zip('kqr', sg))
                G1 = {(leg, t): gamma1(t, x[leg], on[leg], s2[leg]) for leg in 'kqr' for t in (0, 1)}
                G2 = {(leg, t): gamma2(t, x[o[0]], x[o[1]], x[leg], loops, s2[leg]) for leg, o in [('q', 'rk'), ('r', 'qk'), ('k', 'qr')] for t in (0, 1)}

                def bis(a, b, c):
                    f = {'q': a, 'r': b, 'k': c}
                    out = V(0.)
                    for leg, o in [('q', 'rk'), ('r', 'qk'), ('k', 'qr')]:
                        out = out + G2[leg, f[leg]] * G1[o[0], f[o[0]]] * G1[o[1], f[o[1]]] * P[o[0]] * P[o[1]]
                    return out * (2. * np.exp(-damp))

                s_2 = (1. - mu) * (1. + mu)
                tq, tr = ref.rsd_a(kk, qq, mu, s_2, r), ref.rsd_a(kk, r, (kk - qq * mu) / r, s_2 * (qq / r)**2, qq)
                X = qq / kk
                proj = 20. * max(1., X**2) * max(1., 1. / X) / X / (r / kk)**2 * (1. + m.big[j, l]**2 / r**2)
                for which, coef in (('q', tq), ('r', tr)):
                    for (a, b), cols in coef.items():
                        B = bis(1, a, b) if which == 'q' else bis(a, 1, b)
                        for c, gg in cols.items():
                            tot[c] += m.wt[j, l] * gg * B.v
                            # the ends of the range of directions are known up to rounding, and so is the projection
                            err[c] += m.wt[j, l] * abs(gg) * B.e + 1e-12 * m.slack[j, l] * proj * (abs(B.v) + B.e)
                            err[c] += 1e-13 * abs(m.slack[j, l] * proj) * (1. + damp) * sum(abs(P[x_].v * P[y_].v) for x_, y_ in ('rk', 'qk', 'qr'))
                nl += 1
                if on['q'] and on['r']: labels.add('all loops')
                elif loops: labels.add('some loops')
                else: labels.add('damping only')
                if damp > 1e-3 or loops: nontriv = True
            if not known: break
        if not known: continue
        if nl: labels.add('compared')
        for c in range(5):
            if not abs(s['pk'][i, c] - tot[c]) <= err[c] + 1e-300:
                raise Violation('A, column %d, at k = %r: %r, expected %r +- %.1e' % (c, kk, s['pk'][i, c], tot[c], err[c]))
            ncomp += 5 * (nl > 0)
    return {'nontrivial': nontriv and ncomp > 0, 'labels': sorted(labels), 'comparisons': ncomp}
