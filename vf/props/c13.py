"""Quartic redshift-space term (B) against its definition as a product of two velocity-weighted spectra."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref
from vf.core import Violation

ID = 'C13'
RULE = ('a case is a tabulated spectrum, wavenumbers (relative to the quadrature nodes), precision settings, and where the two spectra come '
        'from: linear (1 loop), the one-loop ones (2 loop, also as the C library computes them when it is given none), or tables of their own; '
        'non-trivial: couplings left for at least one k, and the two spectra differ or the settings are not the defaults')
CASES = {'quick': 800, 'thorough': 20000}
ASSUMPTIONS = ['k > 0', 'the integrals are the Gauss-Legendre sums with the number of points the user set']
LD = np.longdouble


def expected(k, q, w, mup, dt, tt):
    """dt, tt: tables (k, P). Values, tolerances (9 columns), number of couplings."""
    m = ref.Modes(k, q, w, mup.n, True)
    K, Q, mu = LD(k), m.q.astype(LD), m.mu.astype(LD)
    r = np.where(m.ok, np.sqrt(np.maximum(K * K + Q * Q - 2. * K * Q * mu, LD(0.))), Q)
    s2 = (1. - mu) * (1. + mu)
    P = {}
    for n, t in (('d', dt), ('t', tt)):
        P[n, 'q'], P[n, 'r'] = (ref.find_pk(t[0], t[1], x, mup.poly, cond=True) for x in (m.q, m.r))
    x = m.q / k
    mag = 100. * np.maximum(1., x**3) / x / (m.r / k)**4 * (1. + m.big**2 / m.r**2)
    val, tol = np.zeros(9), np.zeros(9)
    for a, b, nf in [('d', 'd', 2), ('t', 'd', 3), ('d', 't', 3), ('t', 't', 4)]:
        ea, eb = 3 if a == 't' else 1, 3 if b == 't' else 1
        g = ref.azav(K, Q, mu, s2, ea, eb)
        (pa, aa), (pb, ab) = P[a, 'q'], P[b, 'r']
        for n in range(0, ea + eb + 1, 2):
            col = {(2, 2): 0, (2, 3): 1, (2, 4): 2, (4, 2): 3, (4, 3): 4, (4, 4): 5, (6, 3): 6, (6, 4): 7, (8, 4): 8}.get((n + 2, nf))
            if col is None: continue        # vanishes
            val[col] += float((m.wt * K**2 * g[n] / (Q**(ea + 1) * r**(eb + 1)) * pa * pb).sum())
            tol[col] += 1e-12 * (m.slack * mag * aa * ab).sum()
    return val, tol + 1e-300, int(m.ok.sum())


@st.composite
def strategy_(draw):
    src = draw(st.sampled_from(['lin', 'lin', 'loop', 'native', 'given', 'given']))
    c = {'table': draw(gen.tables(nmax=draw(st.sampled_from([5, 20, 60])))), 'src': src,
         'q': draw(st.one_of(cfg.qprec(2, 8), cfg.qprec(2, 8), cfg.ratio_prec())), 'mu': draw(cfg.muprec(1, 6, default=True)),
         'pkinterp': draw(st.sampled_from([None, 'poly', 'lin'])), 'k': draw(st.lists(cfg.kreltoken(), min_size=1, max_size=4)),
         'nthreads': draw(st.sampled_from([1, 1, 2, 3, 8])), 'uv': draw(st.sampled_from([None, None, 0.25, 1., 3.]))}
    c['again'] = draw(st.booleans())
    c['before'] = draw(st.sampled_from([None, None, 'B1Loop', 'B2Loop', 'given']))
    if src == 'given': c.update(dt=draw(gen.tables(nmax=20)), tt=draw(gen.tables(nmax=20)), swap=draw(st.booleans()), dd=draw(st.booleans()), samek=draw(st.booleans()))
    return c


def strategy(tier):
    return strategy_()


def check(case, api):
    tk, tp = gen.table(case['table'])
    prev = case['before'] if case['src'] != 'native' else None      # spectra once given are kept
    dp = ctypes.POINTER(ctypes.c_double)

    def give(t, ab):
        f = api.P.PyRegPT().regpt.set_spectra_B
        f.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, dp, dp)
        f(*ab, len(t[0]), t[0].ctypes.data_as(dp), t[1].ctypes.data_as(dp))

    keep = (tk, -3. * tp)
    s = {'lin': api.P.B1Loop, 'given': api.P.B1Loop, 'loop': api.P.B2Loop, 'native': api.P.B2Loop}[case['src']]()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    if prev:
        # another calculation, or other spectra, on the same wavenumbers first
        if prev == 'given':
            for ab in [(b'delta', b'theta'), (b'theta', b'theta'), (b'delta', b'delta')]: give(keep, ab)
        else:
            o = getattr(api.P, prev)()
            o.set_verbosity('quiet')
            o.set_spectrum_lin(s.spectrum_lin)
            for name in ('B_q', 'gamma1_1loop_q', 'gamma2_tree_q'): o.set_precision(name, n=3)
            o.set_terms(tk[:2])
            o.run_terms(nthreads=1)
            for name in ('B_q', 'gamma1_1loop_q', 'gamma2_tree_q'): o.set_precision(name)
    g = cfg.apply(s, 'B_q', case['q'], tk)
    mu = cfg.apply(s, 'B_mu', case['mu'], tk)
    poly = cfg.interp_setting(s, 'B', case['pkinterp'])
    if case['uv']: s.set_running_uvcutoff('B', uvcutoff=case['uv'])
    q, w = ref.qgrid(tk, g.q)
    k = cfg.kvals(tk, case['k'], q)
    s.set_terms(k)
    dt = tt = (tk, tp)
    if case['src'] in ('lin', 'loop'):
        if case['src'] == 'loop':
            s.set_precision('gamma1_1loop_q', n=3)
            s.set_precision('gamma2_tree_q', n=4)
        s.run_terms(nthreads=case['nthreads'])
        if case['src'] == 'loop':
            spec = []
            for a in ('delta', 'theta'):
                o = api.P.Spectrum1Loop()
                o.set_pk_lin(tk, tp)
                o.set_terms(tk)
                o.run_terms(a=a, b='theta', nthreads=1)
                spec.append((tk, o.pk()))
            dt, tt = spec
    else:
        if case['src'] == 'native':
            s.set_precision('gamma1_1loop_q', n=3)
            s.set_precision('gamma2_tree_q', n=4)
        else:
            dt, tt = gen.table(case['dt']), gen.table(case['tt'])
            if case['samek']: tt = (dt[0], np.interp(np.log(dt[0]), np.log(tt[0]), tt[1]))
            if prev == 'given':      # same wavenumbers, other values
                keep2 = [(t[0], 2. * t[1]) for t in (dt, tt)]
                give(keep2[0], (b'delta', b'theta')); give(keep2[1], (b'theta', b'theta'))
            give(dt, (b'delta', b'theta') if not case['swap'] else (b'theta', b'delta'))
            give(tt, (b'theta', b'theta'))
            if case['dd']: give(keep, (b'delta', b'delta'))     # not one of those B is made of
        s.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
        for i in range(2 if case['again'] else 1): s.regpt.run_terms_B(case['nthreads'])
        if case['src'] == 'native':
            spec = []
            for a in ('delta', 'theta'):
                o = api.P.Spectrum1Loop()
                o.set_pk_lin(tk, tp)
                o.set_terms(tk)
                o.run_terms(a=a, b='theta', nthreads=1)
                spec.append((tk, o.pk()))
            dt, tt = spec
    pl, al = ref.find_pk(tk, tp, k, poly, cond=True)
    sd = ref.sigmad2(tk, tp, k, case['uv'] or 0.5)
    n = live = 0
    if s['pk'].shape != (len(k), 9): raise Violation('pk has the shape %r for %d wavenumbers' % (s['pk'].shape, len(k)))
    for i, kk in enumerate(k):
        if s['k'][i] != kk: raise Violation('k changed: %r, given %r' % (s['k'][i], kk))
        if not abs(s['pk_lin'][i] - pl[i]) <= 1e-11 * al[i]: raise Violation('pk_lin(%r) = %r, expected %r' % (kk, s['pk_lin'][i], pl[i]))
        if not abs(s['sigmad2'][i] - sd[i]) <= 1e-11 * sd[i] + 1e-300: raise Violation('sigmad2(%r) = %r, expected %r' % (kk, s['sigmad2'][i], sd[i]))
        want, tol, m = expected(kk, q, w, mu, dt, tt)
        if not np.isfinite(want).all(): continue
        live += m
        for c in range(9):
            if not abs(s['pk'][i, c] - want[c]) <= tol[c]:
                raise Violation('B (%s), column %d, at k = %r: %r, expected %r +- %.1e' % (case['src'], c, kk, s['pk'][i, c], want[c], tol[c]))
            n += 1
    return {'nontrivial': live > 0 and (case['mu'] is not None or case['src'] != 'lin'),
            'labels': (['history'] if prev else []) + ['couplings' if live else 'none', 'spectra ' + case['src']], 'comparisons': n}
