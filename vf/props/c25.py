"""Units and amplitude: what a calculation gives when the spectrum is multiplied or the units of k changed."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen
from vf.core import Violation
from vf.props import c17, c20

ID = 'C25'
RULE = ('a case is a calculation (kind, table, wavenumbers, quadratures with ranges, fields, interpolations, threads) made twice, the second time with the linear spectrum multiplied by c and all wavenumbers, those of the '
        'table, of the output and of the ranges, by l; non-trivial: c or l not 1, and a column other than those of the table not zero')
CASES = {'quick': 800, 'thorough': 20000}
ASSUMPTIONS = ['terms with damping in them (B at two loops) are only dimensionless: c = l^-3; A at two loops has scales of its own (in h/Mpc) and is left out', 'the Monte Carlo integrals run on the stand-in, on the same points of the unit hypercube',
               'tolerance 1e-6 of the largest contribution: the formulas cancel, differently when rounding changes']
CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'B1Loop', 'B2Loop']
ORDER0 = ['gamma1a_1loop', 'gamma1b_1loop', 'gamma1a_2loop', 'gamma1b_2loop', 'sigma3sq']   # without dimension


@st.composite
def strategy_(draw):
    cls = draw(st.sampled_from(CLS))
    return {'cls': cls, 'table': draw(gen.tables(nmin=4, nmax=20, kmin=(5e-3, 2e-2), kmax=(0.5, 2.), rough=False)), 'k': draw(st.lists(gen.fl(0.05, 0.95, 3), min_size=1, max_size=5)),
            'c': draw(st.sampled_from([2., 0.5, 1e-3, 64., 7.3, 1e-20, 1e15])), 'l': draw(st.sampled_from([1., 0.5, 4., 0.01, 3.7, 150.])),
            'a': draw(st.sampled_from(['delta', 'theta'])), 'b': draw(st.sampled_from(['delta', 'theta'])), 'nthreads': draw(st.sampled_from([1, 2])), 'interp': draw(st.sampled_from([None, 'lin', 'poly'])),
            'range': draw(st.one_of(st.none(), st.tuples(gen.fl(0.02, 0.3, 3), gen.fl(0.4, 0.97, 3)).map(list))), 'uv': draw(st.sampled_from([None, 0.3, 2.])), 'n': draw(st.integers(2, 7))}


def strategy(tier): return strategy_()


def run(api, case, c, l):
    cls = case['cls']
    tk, tp = gen.table(case['table'])
    k = l * tk[0] * (tk[-1] / tk[0])**np.array(case['k'])
    s = getattr(api.P, cls)()
    lo, hi = (-1., -1.) if case['range'] is None else [l * tk[0] * (tk[-1] / tk[0])**x for x in case['range']]
    sets = c17.SETS[cls]
    for name, n in sets.items():
        n = min(n, case['n'] if name.endswith('_mu') else 2 * case['n'])
        kw = {'n': n}
        if name.endswith('_q'): kw.update(min=lo, max=hi)
        if case['interp']: kw['interpol'] = case['interp']
        s.set_precision(name, **kw)
    for name in ('gamma3_tree_q', 'A_2loop_II_III_q'): s.set_precision(name, min=lo, max=hi)
    if case['uv']: s.set_running_uvcutoff('all', uvcutoff=case['uv'])
    s.set_pk_lin(l * tk, c * tp)
    s.set_terms(k)
    s.run_terms(**({'a': case['a'], 'b': case['b'], 'nthreads': case['nthreads']} if cls.startswith('Spectrum') else {'nthreads': case['nthreads']}))
    # the linear spectrum and its integrals, also outside the table
    kk = l * tk[0] * (tk[-1] / tk[0])**np.array([-2., -0.5, -0.01, 0., 0.3, 1., 1.01, 1.5, 3.] + case['k'])
    s.lookup = [s.find_pk_lin(kk, interpol=i) for i in ('lin', 'poly')]
    return s


def check(case, api):
    cls, l, n, nonzero = case['cls'], case['l'], 0, False
    c = l**-3 if cls == 'B2Loop' else case['c']
    api.P.PyRegPT().set_verbosity('quiet')
    api.suave_points(c17.PTS)
    s = run(api, case, 1., 1.)
    one = {f: np.array(s[f]) for f in s.FIELDS}
    t = run(api, case, c, l)
    for a, b in zip(s.lookup, t.lookup):
        n += len(a)
        if not (np.abs(b - c * a) <= 1e-9 * np.abs(c * a) + 1e-12 * c * np.abs(a).max() * (np.arange(len(a)) > 2) * (np.arange(len(a)) != 8)).all():
            raise Violation('linear spectrum multiplied by %r and k by %r: lookups go from %r to %r' % (c, l, a.tolist(), b.tolist()))
    for f in t.FIELDS:
        got, v = np.asarray(t[f]), one[f]
        if f == 'k': factor = l
        elif f == 'sigmad2': factor = c * l
        else:
            o = c20.order(cls, f) if f != 'pk' else 2
            factor = c**o * l**(3 * (o if f in ORDER0 else o - 1))
        want = factor * v
        # a domain that is empty but for rounding: nothing next to what such a term can be
        floor = 0. if f in ('k', 'pk_lin', 'sigmad2') else 1e-9 * abs(factor) * np.abs(one['pk_lin'])**o * one['k']**(3 * (o if f in ORDER0 else o - 1))
        scale = np.abs(want)
        if v.ndim > 1: floor = floor[:, None]
        # contributions of both signs: the largest of the columns of one kind
        if f == 'pk': scale = np.abs(want).max(axis=1, keepdims=True)
        if f.startswith('pk_b'): scale = sum(np.abs(one[g]) for g in one if g.startswith('pk_b')) * abs(factor)
        if f.startswith('pk_gamma2'): scale = scale + abs(factor) * np.sqrt(np.abs(one['pk_gamma2_tree_tree'] * one['pk_gamma2_1loop_1loop'])) if f.endswith('tree_1loop') else scale
        n += got.size
        if f not in ('k', 'pk_lin', 'sigmad2') and np.any(got): nonzero = True
        bad = ~(np.abs(got - want) <= 1e-6 * scale + floor + 1e-300)
        if bad.any():
            j = tuple(np.argwhere(bad)[0])
            raise Violation('%s with the spectrum multiplied by %r and k by %r: column %s%s is %r, expected %r times %r' % (cls, c, l, f, [int(x) for x in j], got[j], factor, v[j]))
    D = c**0.5
    if l == 1. and cls != 'B2Loop':
        # the growth factor stands for the square root of the amplitude
        if cls.startswith('Spectrum'):
            P, Q = t.pk(), s.pk(Dgrowth=D)
            big = np.abs(P) + np.abs(t['pk_lin'])
            if not (np.abs(P - Q) <= 1e-6 * big).all(): raise Violation('%s: spectrum multiplied by %r gives pk() = %r, growth factor %r gives %r' % (cls, c, P.tolist(), D, Q.tolist()))
        s.rescale(D)
        if cls.startswith('Spectrum'):
            Q = s.pk()
            if not (np.abs(P - Q) <= 1e-6 * big).all(): raise Violation('%s: spectrum multiplied by %r gives pk() = %r, rescale(%r) gives %r' % (cls, c, P.tolist(), D, Q.tolist()))
            n += 2 * len(P)
        for f in s.FIELDS:
            n += one[f].size
            factor = c**(2 if f == 'pk' else c20.order(cls, f))
            if not (np.abs(s[f] - factor * one[f]) <= 1e-9 * np.abs(factor * one[f])).all():
                raise Violation('%s: rescale(%r) turns column %s from %r into %r, the spectrum multiplied by %r into %r' % (cls, D, f, one[f].tolist(), s[f].tolist(), c, t[f].tolist()))
    return {'nontrivial': nonzero and (c != 1. or l != 1.), 'labels': [cls] + (['range'] if case['range'] else []), 'comparisons': n}
