"""Dispersions: of displacements, of the density in spheres."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation
from vf.props import c14, c20

ID = 'C24'
RULE = ('a case is an instance with a spectrum (linear, without wiggles, or of terms of any value), growth factor, displacement dispersion, radii; non-trivial: at least three wavenumbers and k*r between 0.1 and 10 '
        'for some of them')
CASES = {'quick': 2400, 'thorough': 50000}
ASSUMPTIONS = ['wavenumbers increase; the integrals are over the wavenumbers of the instance, by the trapezoidal rule', 'the spectrum is not negative on the whole (the dispersion is the square root of an integral)']


@st.composite
def strategy_(draw):
    return {'cls': draw(st.sampled_from(['SpectrumLin', 'SpectrumNoWiggle', 'Spectrum1Loop', 'Spectrum2Loop'])), 'table': draw(gen.tables(nmin=3, nmax=60)), 'seed': draw(st.integers(0, 999)),
            'D': draw(st.one_of(st.none(), gen.fl(0.1, 2., 3))), 'sd': draw(st.one_of(st.none(), gen.logfl(0.1, 100., 3))), 'r': draw(st.lists(gen.logfl(0.5, 200., 4), min_size=1, max_size=3))}


def strategy(tier): return strategy_()


def check(case, api):
    cls = case['cls']
    k, pk = gen.table(case['table'])
    s = getattr(api.P, cls)()
    kw = {}
    if case['D'] is not None: kw['Dgrowth'] = case['D']
    D = kw.get('Dgrowth', 1.)
    if cls in ('SpectrumLin', 'SpectrumNoWiggle'):
        s['k'], s['pk'] = k.copy(), pk.copy()
        P = pk * D**2
    else:
        v = c20.columns(cls, len(k), case['seed'])
        v.update(k=k, pk_lin=pk, sigmad2=np.full(len(k), 20.))
        v = {f: (np.abs(x) * pk if f.startswith('pk_gamma') else x) for f, x in v.items()}
        for f in v: s[f] = v[f].copy()
        if case['sd'] is not None: kw['sigmad2'] = case['sd']
        P = (c14.want_1loop if cls == 'Spectrum1Loop' else c14.want_2loop)(v, D, np.full(len(k), 20. if case['sd'] is None else case['sd']))[0]
    n = 0

    def compare(what, got, want2, rel):
        if not np.ndim(got) == 0: raise Violation('%s has the shape %r' % (what, np.shape(got)))
        if not abs(float(got)**2 - want2) <= rel * abs(want2): raise Violation('%s = %r, expected %r' % (what, float(got), want2**0.5))
        return 1

    L = np.longdouble
    K, PL = k.astype(L), P.astype(L)
    dk = K[1:] - K[:-1]
    pi = L('3.14159265358979323846264338327950288')

    def trapezoid(y): return float((dk * (y[1:] + y[:-1]) / 2).sum())
    # sums of terms of any sign: relative to the sum of their absolute values
    for what, got, y in [('sigmav', s.sigmav, PL / (6 * pi**2))]:
        w, big = trapezoid(y), trapezoid(np.abs(y))
        if w > 0.01 * big: n += compare('%s(%r)' % (what, kw), got(**kw), w, 1e-8)
    near = False
    for r in case['r'] + [8.]:
        x = K * L(r)
        W = np.where(x < 0.02, 1 - x**2 / 10 + x**4 / 280 - x**6 / 15120, 3 * (np.sin(x) - x * np.cos(x)) / x**3)
        y = PL * K**2 * W**2 / (2 * pi**2)
        w, big = trapezoid(y), trapezoid(np.abs(y))
        # 3 (sin x - x cos x) / x^3 cancels at small x
        slack = trapezoid(np.abs(PL) * K**2 / (2 * pi**2) * np.abs(W) * np.minimum(1e-13 / x.astype(float)**2, 1.)) / big + 1e-8
        near = near or bool(((x > 0.1) & (x < 10.)).any())
        if w > 0.01 * big and slack < 1e-2:
            n += compare('sigmar(%r, %r)' % (r, kw), s.sigmar(r, **kw), w, slack * 100.)
            if r == 8.: n += compare('sigma8(%r)' % kw, s.sigma8(**kw), w, slack * 100.)
    for f, v in (('k', k),) + ((('pk', pk),) if cls in ('SpectrumLin', 'SpectrumNoWiggle') else (('pk_lin', pk),)):
        if not np.array_equal(s[f], v): raise Violation('column %s has changed' % f)
    return {'nontrivial': near and len(k) >= 3 and n > 1, 'labels': [cls], 'comparisons': n}
