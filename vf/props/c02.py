"""Running sigma_d^2."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.core import Violation

ID = 'C02'
RULE = ('a case is a tabulated spectrum, a list of k in any order and a UV cutoff; non-trivial: at least one uvcutoff*k strictly '
        'inside the table between two nodes, and k out of order or some uvcutoff*k outside the table')
CASES = {'quick': 4000, 'thorough': 60000}
ASSUMPTIONS = ['k > 0, uvcutoff > 0, table with at least 3 increasing k']


@st.composite
def strategy_(draw):
    t = draw(gen.tables(nmax=draw(st.sampled_from([4, 4, 12, 12, 200, 200, 2500]))))
    if draw(st.integers(0, 3)) == 0: t['zero'] = draw(st.lists(st.integers(-20, 200), min_size=1, max_size=6))
    many = draw(gen.manies())
    return {'many': many, 'seed': draw(st.integers(0, 9)) if many else 0, 'table': t, 'k': draw(st.lists(gen.ktoken(), min_size=1, max_size=12)),
            'uv': draw(st.one_of(st.sampled_from([0.5, 1., 0.25, 2.]), gen.logfl(0.01, 20., 3))),
            'default': draw(st.booleans()), 'run': draw(st.sampled_from([None, None, '1loop', 'bias'] if not many or many < 100 else [None]))}


def strategy(tier):
    return strategy_()


# more points than two bytes can count
EXAMPLES = [{'many': 0, 'seed': 0, 'table': {'n': 70000, 'kmin': 1e-4, 'kmax': 10., 'A': 1000., 'ns': 0.9, 'k0': 0.05, 'm': 1., 'spacing': 'lin'}, 'k': [['frac', 0.05], ['frac', 0.93], ['node', 69990], ['frac', 0.99], ['frac', 0.5], ['below', 0.5], ['above', 2.], ['node', 40]], 'uv': 0.5, 'default': d, 'run': None} for d in (False, True)]


def check(case, api):
    tk, tp = gen.table(case['table'])
    k = gen.many(gen.kvalues(tk, case['k']), case['many'], case['seed'])
    uv = 0.5 if case['default'] else case['uv']
    cls = {'1loop': 'Spectrum1Loop', 'bias': 'Bias1Loop'}.get(case['run'], 'PyRegPT')
    s = getattr(api.P, cls)()
    s.set_verbosity('quiet')
    s.set_pk_lin(tk, tp)
    got = s.calc_running_sigmad2(k) if case['default'] else s.calc_running_sigmad2(k, uvcutoff=uv)
    want = ref.sigmad2(tk, tp, k, uv)
    amp = ref.sigmad2(tk, np.abs(tp), k, uv)
    bad = ~(np.abs(got - want) <= 1e-11 * amp + 1e-300)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('sigmad2(%r, uvcutoff %r) = %r, expected %r' % (k[i], uv, got[i], want[i]))
    if case['run']:
        if case['run'] == '1loop':
            s.set_precision('gamma1_1loop_q', n=2)
            s.set_precision('gamma2_tree_q', n=2)
            s.set_precision('gamma2_tree_mu', n=2)
            if not case['default']: s.set_running_uvcutoff('spectrum_1loop', uvcutoff=uv)
        else:
            s.set_precision('bias_1loop_q', n=2)
            s.set_precision('bias_1loop_mu', n=2)
            if not case['default']: s.set_running_uvcutoff('bias_1loop', uvcutoff=uv)
        s.set_terms(k)
        s.run_terms(nthreads=1)
        if not np.allclose(s['sigmad2'], want, rtol=1e-11, atol=1e-300): raise Violation('column sigmad2 %r, expected %r' % (s['sigmad2'], want))
    x = uv * k
    inside = (x > tk[0]) & (x < tk[-1]) & ~np.isin(x, tk)
    return {'nontrivial': bool(inside.any() and ((np.diff(k) < 0).any() or (x < tk[0]).any() or (x > tk[-1]).any())),
            'labels': (['unsorted'] if (np.diff(k) < 0).any() else []) + (['column'] if case['run'] else []), 'comparisons': len(k)}
