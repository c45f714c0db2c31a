"""Precision settings of a run: generated, applied through the public set_precision, and what they mean."""
import numpy as np
from hypothesis import strategies as st

from vf import gen

# the documented defaults: number of points, range in q (None: the whole table), mu points
DEFAULTS = {'gamma1_1loop_q': (600, 5e-4, 10.), 'gamma1_2loop_q': (500, 5e-4, 10.), 'gamma2_tree_q': (200, 5e-4, 10.),
            'gamma2d_1loop_q': (100, 5e-4, 10.), 'gamma2t_1loop_q': (100, 5e-4, 10.), 'gamma3_tree_q': (0, 5e-4, 10.),
            'bias_1loop_q': (2000, -1., -1.), 'A_1loop_q': (2000, -1., -1.), 'A_2loop_I_q': (300, 5e-4, 10.),
            'A_2loop_II_III_q': (0, 5e-4, 10.), 'B_q': (600, 5e-4, 10.),
            'gamma2_tree_mu': 10, 'bias_1loop_mu': 20, 'A_1loop_mu': 20, 'A_2loop_I_mu': 10, 'B_mu': 10}


class Prec(object):

    def __init__(self, n, lo, hi, poly): self.n, self.lo, self.hi, self.poly = n, lo, hi, poly

    @property
    def q(self): return (self.n, self.lo, self.hi)


@st.composite
def qprec(draw, nmin=1, nmax=12, default=False, wide=1.):
    """None: left alone. n = 0: left alone (never where the default would be too slow)."""
    if default and draw(st.integers(0, 5)) == 0: return None
    p = {'n': draw(st.integers(nmin, nmax))}
    kind = draw(st.sampled_from(['sub', 'sub', 'sub', 'table', 'keep', 'out']))
    if kind == 'table': p['range'] = draw(st.sampled_from(['table', 'table', 'table', ['abs', 0., 0.], ['abs', -1., 0.3], ['abs', 0., 0.05], ['abs', -3., -2.], ['abs', -1., 0.]]))
    elif kind == 'sub':
        a = draw(gen.fl(0., 0.9, 3))
        p['range'] = [a, gen.rnd(a + draw(gen.fl(0.02, 1., 3)) * (1. - a), 4)]
    elif kind == 'out':
        p['range'] = [draw(gen.fl(-0.3, 0.3, 3)) * wide, 1. + draw(gen.fl(-0.3, 0.3, 3)) * wide]
    p['interp'] = draw(st.sampled_from([None, None, 'poly', 'lin']))
    p['split'] = draw(st.booleans())
    return p


@st.composite
def muprec(draw, nmin=1, nmax=8, default=False):
    if default and draw(st.integers(0, 5)) == 0: return None
    return {'n': draw(st.integers(nmin, nmax)), 'interp': draw(st.sampled_from([None, None, 'poly', 'lin'])), 'split': draw(st.booleans())}


def bounds(p, tk, default):
    if p is None or 'range' not in p: return default[1], default[2]
    if p['range'] == 'table': return -1., -1.
    if p['range'][0] == 'abs': return float(p['range'][1]), float(p['range'][2])
    a, b = p['range']
    r = tk[-1] / tk[0]
    return float(tk[0] * r**a), float(tk[0] * r**b)


def apply(s, name, p, tk):
    """Sets the precision p of the calculation name and returns what it amounts to."""
    mu = name.endswith('_mu')
    default = (DEFAULTS[name], -1., 1.) if mu else DEFAULTS[name]
    if p is None: return Prec(default[0], default[1], default[2], True)
    kw = {}
    if p['n'] > 0: kw['n'] = p['n']
    if 'range' in p: kw['min'], kw['max'] = bounds(p, tk, default)
    if p.get('interp'): kw['interpol'] = p['interp']
    if p.get('split'):
        if 'n' in kw: s.set_precision(name, n=kw['n'])
        if 'min' in kw: s.set_precision(name, min=kw['min'], max=kw['max'])
        if 'interpol' in kw: s.set_precision(name, interpol=kw['interpol'])
    elif kw: s.set_precision(name, **kw)
    return Prec(kw.get('n', default[0]), kw.get('min', default[1]), kw.get('max', default[2]), p.get('interp') != 'lin')


@st.composite
def kreltoken(draw):
    """k relative to a node in q: near x = 1, near other values where formulas change, or anywhere."""
    kind = draw(st.integers(0, 4))
    if kind <= 1: return ['q', draw(st.integers(0, 20)), gen.rnd(1. + draw(gen.fl(-0.012, 0.012, 4)), 7)]
    if kind == 2: return ['q', draw(st.integers(0, 20)), draw(gen.logfl(1e-3, 1e3, 4))]
    if kind == 3: return ['q', draw(st.integers(0, 20)), gen.rnd(draw(st.sampled_from([0.1, 10., 2., 0.5, 0.01, 100.])) * (1. + draw(gen.fl(-0.02, 0.02, 3))), 6)]
    return draw(gen.ktoken())


def kvals(tk, tokens, q):
    """x = q/k for ['q', i, x], otherwise as gen.ktoken_value."""
    return np.array([float(q[t[1] % len(q)] / t[2]) if t[0] == 'q' else gen.ktoken_value(tk, t) for t in tokens], 'f8')


def interp_setting(s, name, value):
    """'poly' (default), 'lin'; returns whether polynomial."""
    if value: s.set_precision(name + '_pk_lin', interpol=value)
    return value != 'lin'


@st.composite
def ratio_prec(draw, n=2):
    """Two nodes whose ratio is drawn: any two scales, and close ones."""
    kind = draw(st.integers(0, 2))
    ratio = draw(gen.logfl(1.5, 3e3, 4)) if kind == 0 else gen.rnd(1. + draw(gen.logfl(1e-3, 0.5, 4)), 7) if kind == 1 else draw(gen.logfl(20., 100., 4))
    c = draw(gen.logfl(1e-3, 3., 4))
    span = np.log(ratio) * np.sqrt(3.)    # the nodes of order 2 are at +-1/sqrt(3) of the half range
    return {'n': n, 'range': ['abs', gen.rnd(c * np.exp(-span / 2.), 8), gen.rnd(c * np.exp(span / 2.), 8)],
            'interp': draw(st.sampled_from([None, 'poly', 'lin'])), 'split': draw(st.booleans())}


def cheap_2loop(s, skip=()):
    """As few points as possible for every part of the 2-loop spectrum not named in skip."""
    for name, n in [('gamma1_1loop_q', 1), ('gamma1_2loop_q', 1), ('gamma2_tree_q', 2), ('gamma2d_1loop_q', 1), ('gamma2t_1loop_q', 1),
                    ('gamma2_tree_mu', 1)]:
        if name not in skip: s.set_precision(name, n=n)
