"""Three-point propagator part of the 2-loop spectrum: what is handed to the integrator, and what is made of its answer."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref, spt
from vf.core import Violation

ID = 'C08'
RULE = ('a case is a tabulated spectrum, wavenumbers, a range of scales, a pair of fields and points of the unit hypercube; the integrand '
        'is compared point by point; non-trivial: at least three points inside the domain (three scales within the range) compared')
CASES = {'quick': 800, 'thorough': 16000}
ASSUMPTIONS = ['the integrator (Suave of Cuba, not installed) is replaced by one that averages over given points: its own accuracy is not part of the property',
               'points at which the integrand is known to less than 6 digits (cancelling wavevectors) are left out']


@st.composite
def points(draw):
    n = draw(st.integers(3, 10))
    out = []
    for i in range(n):
        kind = draw(st.integers(0, 3))
        if kind <= 1: out.append([draw(gen.fl(0.001, 0.999, 5)) for _ in range(5)])
        else: out.append(['near', draw(gen.logfl(0.05, 3., 3)), draw(gen.fl(0.02, 0.98, 4)), draw(gen.fl(0., 1., 4)), draw(gen.logfl(0.05, 3., 3)), draw(gen.fl(0.02, 0.98, 4))])
    return out


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 3))
    rng = None
    if kind == 1: rng = 'table'
    if kind >= 2:
        a = draw(gen.fl(-0.2, 0.6, 3))
        rng = [a, gen.rnd(a + draw(gen.fl(0.1, 1., 3)), 4)]
    return {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 80])))), 'range': rng, 'interp': draw(st.sampled_from([None, 'poly', 'lin'])),
            'k': draw(st.lists(gen.fl(0.05, 0.95, 4), min_size=1, max_size=3)), 'pts': draw(points()),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])), 'nthreads': draw(st.sampled_from([1, 2, 8])),
            'cls': draw(st.sampled_from(['set', 'stale', 'sticky']))}


def strategy(tier):
    return strategy_()


def unit(pts, k, lo, hi):
    """Points of the hypercube; ['near', p/k, ...] are drawn around the scale k."""
    out = []
    L = np.log(hi / lo)
    for p in pts:
        if p[0] == 'near': p = [np.log(p[1] * k / lo) / L, p[2], p[3], np.log(p[4] * k / lo) / L, p[5]]
        out.append([min(max(float(x), 0.0005), 0.9995) for x in p])
    return np.array(out)


def integrand(u, k, lo, hi, tk, tp, poly, a, b, jitter=None):
    """Integrand over (ln p, theta1, phi1, ln q, theta2), each over its range, and which points are inside."""
    L = np.log(hi / lo)
    p, q = lo * np.exp(L * u[:, 0]), lo * np.exp(L * u[:, 3])
    t1, f1, t2 = np.pi * u[:, 1], 2. * np.pi * u[:, 2], np.pi * u[:, 4]
    vp = (p * np.array([np.sin(t1) * np.cos(f1), np.sin(t1) * np.sin(f1), np.cos(t1)])).T
    vq = (q * np.array([np.sin(t2), 0. * t2, np.cos(t2)])).T
    if jitter is not None:
        vp = vp * (1. + 1e-12 * jitter.uniform(-1., 1., vp.shape))
        vq = vq * (1. + 1e-12 * jitter.uniform(-1., 1., vq.shape))
    vp, vq = vp.astype(np.longdouble), vq.astype(np.longdouble)
    vk = np.zeros(vp.shape, np.longdouble)
    vk[:, 2] = k
    vr = vk - vp - vq
    if jitter is not None: vr = vr * (1. + 1e-13 * jitter.uniform(-1., 1., vr.shape))
    r = np.sqrt((vr**2).sum(-1)).astype('f8')
    kp = vk - vp
    inside = (r >= lo) & (r <= hi) & ((vq * kp).sum(-1) <= 0.5 * (kp**2).sum(-1))
    F, G = spt.fg_sym([v.astype(np.longdouble) for v in (vp, vq, vk - vp - vq if jitter is None else vr)])
    val = np.ones(len(u))
    amp = np.ones(len(u))
    for x in (p, q, r):
        v, am = ref.find_pk(tk, tp, x, poly, cond=True)
        val, amp = val * v, amp * am
    # two halves (q and k-p-q exchanged), 2 pi for the angle of q
    jac = 2. * p**3 * q**3 * np.sin(t1) * np.sin(t2) * (L * L) * np.pi * 2. * np.pi * np.pi * 2. * np.pi
    f = jac * (G if a else F) * (G if b else F)
    # rounding of kernels that cancel
    pairs = [np.sqrt((v**2).sum(-1)) for v in (vp + vq, vp + vr, vq + vr)]
    big = np.maximum(np.maximum(p, q), r)
    small = np.min([p, q, r] + [np.asarray(x, 'f8') for x in pairs], axis=0)
    d = 1e-15 * (big / small)**2
    noise = np.abs(jac) * amp * ((np.abs(F) + np.abs(G)) * d + d * d) + 0.
    edge = (np.abs(r / lo - 1.) < 1e-9) | (np.abs(r / hi - 1.) < 1e-9) | (np.abs((vq * kp).sum(-1) - 0.5 * (kp**2).sum(-1)) < 1e-9 * (np.abs(vq * kp).sum(-1) + (kp**2).sum(-1)))
    noise = np.where(edge, np.inf, noise)
    return np.where(inside, f * val, 0.).astype('f8'), np.where(inside, np.abs(f) * amp, 0.).astype('f8'), inside, noise.astype('f8')


def check(case, api):
    tk, tp = gen.table(case['table'])
    kw = {}
    if case['interp']: kw['interpol'] = case['interp']
    if case['range'] == 'table': kw['min'] = kw['max'] = -1.
    elif case['range'] is not None:
        kw['min'], kw['max'] = (float(tk[0] * (tk[-1] / tk[0])**x) for x in case['range'])
    if case['cls'] != 'set':
        # whatever was computed before with another spectrum must not matter; 'sticky': the settings made then stay
        o = api.P.Spectrum2Loop()
        o.set_verbosity('quiet')
        o.set_pk_lin(tk * 1.7, tp * 0.3)
        cfg.cheap_2loop(o)
        if case['cls'] == 'sticky' and kw: o.set_precision('gamma3_tree_q', **kw)
        if case['cls'] == 'stale' and case['range'] == 'table': o.set_precision('gamma3_tree_q', min=-1., max=-1.)
        api.suave_points(np.full((1, 5), 0.4))
        o.set_terms(np.array([0.1]))
        o.run_terms(nthreads=1)
        if case['cls'] == 'stale': o.clear()
    s = api.P.Spectrum2Loop()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    if case['cls'] != 'sticky': cfg.cheap_2loop(s)
    lo, hi = 5e-4, 10.
    if kw and case['cls'] != 'sticky': s.set_precision('gamma3_tree_q', **kw)
    if 'min' in kw: lo, hi = (kw['min'], kw['max']) if kw['min'] > 0. else (float(tk[0]), float(tk[-1]))
    k = lo * (hi / lo)**np.array(case['k'])
    u = unit(case['pts'], k[0], lo, hi)
    api.suave_points(u)
    s.set_terms(k)
    s.run_terms(a=case['a'], b=case['b'], nthreads=case['nthreads'])
    nc, ndim, ncomp, vals, eps = api.suave_values()
    if (nc, ndim, ncomp) != (len(k), 5, 1): raise Violation('%d integrals of %d components over %d dimensions for %d wavenumbers' % (nc, ncomp, ndim, len(k)))
    if not eps[0] <= 1e-4: raise Violation('relative accuracy %r asked of the integrator' % eps[0])
    ta, tb = case['a'] == 'theta', case['b'] == 'theta'
    n = live = 0
    for i, kk in enumerate(k):
        want, amp, inside, noise = integrand(u, kk, lo, hi, tk, tp, case['interp'] != 'lin', ta, tb)
        R = np.random.RandomState(0)
        var, known = np.zeros(len(u)), np.ones(len(u), bool)
        for _ in range(3):
            w2, _, in2, _ = integrand(u, kk, lo, hi, tk, tp, case['interp'] != 'lin', ta, tb, jitter=R)
            var = np.maximum(var, np.abs(w2 - want))
            known &= in2 == inside
        known &= var <= 1e-6 * amp + 1e-300
        known &= np.isfinite(noise)
        tol = 10. * var + 1e-10 * amp + noise
        got = vals[i, :, 0]
        bad = known & ~(np.abs(got - want) <= tol)
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation('integrand (%s, %s) at k = %r, point %r: %r, expected %r' % (case['a'], case['b'], kk, list(u[j]), got[j], want[j]))
        res = 6. * np.mean(got) / (2. * np.pi)**6
        if not abs(s['pk_gamma3_tree'][i] - res) <= 1e-12 * np.mean(np.abs(got)) + 1e-300:
            raise Violation('pk_gamma3_tree(%r) = %r, 6 / (2 pi)^6 times the integral is %r' % (kk, s['pk_gamma3_tree'][i], res))
        n += int(known.sum())
        live += int((known & inside).sum())
    return {'nontrivial': live >= 3, 'labels': [case['cls'], 'range ' + ('default' if case['range'] is None else 'table' if case['range'] == 'table' else 'set')] + (['inside'] if live else []), 'comparisons': n + len(k)}
