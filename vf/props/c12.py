"""Cubic redshift-space term (A) with the one-loop bispectrum: the parts with 222 and 321 kernels, handed to the Monte Carlo integrator."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation
from vf.props import c10

ID = 'C12'
RULE = ('a case is a tabulated spectrum, wavenumbers, a range of scales, interpolations, a UV cutoff and points of the unit hypercube over '
        'which the integrator averages (p and q of the order of k, or anywhere); the five columns are compared; non-trivial: at least one point '
        'inside the domain with both kernels (222 and 321) contributing')
CASES = {'quick': 560, 'thorough': 20000}
ASSUMPTIONS = ['the integrator (Suave of Cuba, not installed) is replaced by one that averages over given points: its own accuracy is not part of the property',
               'the hypercube is mapped on (ln p, mu, ln q, theta, phi)', 'points where the integrand is known to less than 6 digits are given that tolerance']
LD = np.longdouble


@st.composite
def points(draw):
    out = []
    for i in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 3)) == 0: out.append([draw(gen.fl(0.001, 0.999, 5)) for _ in range(5)])
        else: out.append(['near', draw(gen.logfl(0.05, 5., 3)), draw(gen.fl(0.02, 1.05, 4)), draw(gen.logfl(0.05, 3., 3)), draw(gen.fl(0.02, 0.98, 4)), draw(gen.fl(0., 1., 4))])
    return out


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 3))
    rng = None
    if kind == 1: rng = 'table'
    if kind >= 2:
        a = draw(gen.fl(-0.2, 0.5, 3))
        rng = [a, gen.rnd(a + draw(gen.fl(0.3, 1., 3)), 4)]
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])), amp=draw(st.sampled_from([(1., 10.), (1e2, 1e4)])))), 'range': rng,
            'interp': draw(st.sampled_from([None, 'poly', 'lin'])), 'uv': draw(st.sampled_from([None, 0.25, 1., 3.])),
            'k': draw(st.lists(gen.fl(0.1, 0.9, 4), min_size=1, max_size=2)), 'pts': draw(points()), 'nthreads': draw(st.sampled_from([1, 2, 8])),
            'cls': draw(st.sampled_from(['set', 'set', 'sticky']))}


def strategy(tier):
    return strategy_()


def unit(pts, k, lo, hi):
    out = []
    L = np.log(hi / lo)
    for p in pts:
        if p[0] == 'near':
            x = p[1]
            top = min(1., 0.5 / x)
            p = [np.log(x * k / lo) / L, (p[2] * (top + 1.)) / 2., np.log(p[3] * k / lo) / L, p[4], p[5]]
        out.append([min(max(float(x), 0.0005), 0.9995) for x in p])
    return np.array(out)


def norm(v): return np.sqrt((v**2).sum(-1))


def columns(u, k, lo, hi, tk, tp, poly, uv, jitter=None):
    """Integrand of the five columns (n, 5), its rounding, and whether both kernels contribute."""
    L = np.log(hi / lo)
    p, mu, q = lo * np.exp(L * u[:, 0]), -1. + 2. * u[:, 1], lo * np.exp(L * u[:, 2])
    th, ph = np.pi * u[:, 3], 2. * np.pi * u[:, 4]
    x = p / k
    n = len(u)
    jit = (lambda v, e: v) if jitter is None else (lambda v, e: v * (1. + e * jitter.uniform(-1., 1., v.shape)))
    inside = ~(jit(mu, 1e-12) > 0.5 / x)
    edge = abs(mu * x / 0.5 - 1.) < 1e-9
    vp = jit((p * np.array([np.sqrt(1. - mu * mu), 0. * mu, mu])).T, 1e-14).astype(LD)
    vq = jit((q * np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])).T, 1e-13).astype(LD)
    vk = np.zeros((n, 3), LD)
    vk[:, 2] = k
    # the legs: p, k-p, -k
    legs = [vp, jit(vk - vp, 1e-14), -vk]
    P = lambda v: ref.find_pk(tk, tp, norm(v).astype('f8'), poly)
    F = {}

    def rounding(*vecs):
        """Absolute error of a kernel in double precision, from the largest and smallest wavevectors in it."""
        lens = [norm(v).astype('f8') for v in vecs]
        return 1e-15 * (np.max(lens, axis=0) / np.min(lens, axis=0))**2

    def terms(d, f, c, factors, pk):
        val, err = np.where(ok_, c * pk, 0.), np.where(ok_, c * np.abs(pk), 0.)
        a, b = val, err
        for v, e in factors: a, b = a * v, b * (np.abs(v) + e)
        d.setdefault(tuple(f), []).append((a, b - np.abs(a)))

    Pq, Pl = P(vq), [P(v) for v in legs]
    t222, t321 = {}, {}
    two, live2, live3 = {}, np.zeros(n, bool), np.zeros(n, bool)
    nq = norm(vq)
    for j in range(3):
        for sgn in (-1, 1):
            v = legs[j] + sgn * vq
            ok = norm(v) > nq
            edge = edge | (abs(norm(v).astype('f8') / q - 1.) < 1e-9)
            F2 = spt.fg_sym([v, -sgn * vq])
            two[j, sgn] = (v, ok, [f.astype('f8') for f in F2], P(v), rounding(v, vq, legs[j]))
    for i in range(3):
        for j in range(3):
            if i == j: continue
            l = 3 - i - j
            a, b = two[i, -1], two[j, 1]
            F2 = [f.astype('f8') for f in spt.fg_sym([a[0], b[0]])]
            ok_ = a[1] & b[1]
            live2 |= ok_
            d = rounding(a[0], b[0], legs[l])
            for fi in (0, 1):
                for fj in (0, 1):
                    for fl in (0, 1):
                        f = [0, 0, 0]
                        f[i], f[j], f[l] = fi, fj, fl
                        terms(t222, f, 4. / (2. * np.pi)**3, [(a[2][fi], a[4]), (b[2][fj], b[4]), (F2[fl], d)], a[3] * b[3] * Pq)
            # leg i carries the linear field, leg j a pair, leg l three
            for sgn in (-1, 1):
                c = two[j, sgn]
                F3 = [f_.astype('f8') for f_ in spt.fg_sym([legs[i], c[0], -sgn * vq])]
                live3 |= c[1]
                ok_ = c[1]
                d = rounding(legs[i], c[0], vq, legs[i] + c[0], legs[i] - sgn * vq, legs[j], legs[l])
                for fi in (0, 1):
                    for fj in (0, 1):
                        for fl in (0, 1):
                            f = [0, 0, 0]
                            f[i], f[j], f[l] = fi, fj, fl
                            terms(t321, f, 6. / (2. * np.pi)**3, [(F3[fl], d), (c[2][fj], c[4])], c[3] * Pq * Pl[i])
    r = norm(legs[1])
    k_ = LD(k)
    muL = legs[0][:, 2] / norm(legs[0])
    s2 = (legs[0][:, 0] / norm(legs[0]))**2
    pL = norm(legs[0])
    tq, tr = ref.rsd_a(k_, pL, muL, s2, r), ref.rsd_a(k_, r, (k_ - pL * muL) / r, s2 * (pL / r)**2, pL)
    s_ = [ref.sigmad2(tk, tp, np.atleast_1d(np.asarray(v, 'f8')), uv) for v in (k, p, r)]
    damp = 0.5 * (k**2 * s_[0][0] + p**2 * s_[1] + np.asarray(r, 'f8')**2 * s_[2])
    jac = 2. * p**3 / (4. * np.pi**2) * q**3 * np.sin(th) * L * L * 4. * np.pi**2 * np.where(inside & (damp < 1e2), np.exp(-damp), 0.)
    out, amp = np.zeros((n, 5)), np.zeros((n, 5))
    for which, coef in (('q', tq), ('r', tr)):
        for (a, b), cols in coef.items():
            key = (1, a, b) if which == 'q' else (a, 1, b)
            parts = t222[key] + t321[key]
            B, A, N = sum(a for a, e in parts), sum(np.abs(a) for a, e in parts), sum(e for a, e in parts)
            for c, g in cols.items():
                g = g.astype('f8')
                out[:, c] += jac * g * B
                amp[:, c] += np.abs(jac * g) * (1e-10 * A * (1. + damp) + N)
    # on the border of the domain, rounding decides
    amp[edge] = np.inf
    return out, amp, inside & live2 & live3 & (damp < 99.)


def check(case, api):
    tk, tp = gen.table(case['table'])
    s = api.P.A2Loop()
    s.set_verbosity('quiet')
    kw = {}
    lo, hi = 5e-4, 10.
    if case['range'] == 'table': kw['min'] = kw['max'] = -1.
    elif case['range'] is not None:
        kw['min'], kw['max'] = (float(tk[0] * (tk[-1] / tk[0])**x) for x in case['range'])
    # nothing from the part made of propagators: a single scale below k/2
    tiny = dict(n=1, min=1e-9, max=1.1e-9)
    for name in ('gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'): s.set_precision(name, n=1)
    if case['cls'] == 'sticky':
        # the settings outlive another calculation with another spectrum
        if kw: s.set_precision('A_2loop_II_III_q', **kw)
        s.set_precision('A_2loop_I_q', **tiny)
        s.set_pk_lin(tk * 1.7, tp * 0.3)
        api.suave_points(np.full((1, 5), 0.4))
        s.set_terms(np.array([0.1]))
        s.run_terms(nthreads=1)
        s = api.P.A2Loop()
        s.set_pk_lin(tk, tp)
    else:
        s.set_pk_lin(tk, tp)
        if kw: s.set_precision('A_2loop_II_III_q', **kw)
        s.set_precision('A_2loop_I_q', **tiny)
    poly = cfg.interp_setting(s, 'bispectrum_1loop', case['interp'])
    if case['uv']: s.set_running_uvcutoff('bispectrum_1loop', uvcutoff=case['uv'])
    if 'min' in kw: lo, hi = (kw['min'], kw['max']) if kw['min'] > 0. else (float(tk[0]), float(tk[-1]))
    k = lo * (hi / lo)**np.array(case['k'])
    u = unit(case['pts'], k[0], lo, hi)
    api.suave_points(u)
    s.set_terms(k)
    s.run_terms(nthreads=case['nthreads'])
    nc, ndim, ncomp, vals, eps = api.suave_values()
    if (nc, ndim) != (len(k), 5): raise Violation('%d integrals over %d dimensions for %d wavenumbers' % (nc, ndim, len(k)))
    if not eps[0] <= 1e-4: raise Violation('relative accuracy %r asked of the integrator' % eps[0])
    live, ok = 0, 0
    for i, kk in enumerate(k):
        args = (u, kk, lo, hi, tk, tp, poly, case['uv'] or 0.5)
        want, amp, inside = columns(*args)
        R = np.random.RandomState(0)
        var = np.zeros_like(want)
        for _ in range(3): var = np.maximum(var, np.abs(columns(*args, jitter=R)[0] - want))
        val, tol = want.mean(0), (10. * var + amp).mean(0) + 1e-300
        for c in range(5):
            if not np.isfinite(val[c]) or not np.isfinite(tol[c]): continue
            if not abs(s['pk'][i, c] - val[c]) <= tol[c]:
                raise Violation('A, column %d, at k = %r, points %r: %r, expected %r +- %.1e' % (c, kk, u.tolist(), s['pk'][i, c], val[c], tol[c]))
            if tol[c] < 1e-3 * abs(val[c]): ok += 1
        live += int(inside.sum())
    return {'nontrivial': live >= 1 and ok > 0, 'labels': [case['cls']] + (['inside'] if live else []) + (['sharp'] if ok else []), 'comparisons': 5 * len(k)}
