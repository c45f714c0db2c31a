"""P_lin lookup."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.core import Violation

ID = 'C01'
RULE = ('a case is a tabulated spectrum (3 to 2500 nodes, log/linear/jittered spacing, smooth or rough, possibly with '
        'non-positive values near an edge) and a list of 1 to 3000 k in any order (nodes, neighbours of nodes in floating point, inside '
        'intervals, beyond both ends); non-trivial: at least two k inside the table, of which one not a node, and k out '
        'of order or outside the table')
CASES = {'quick': 4000, 'thorough': 60000}
ASSUMPTIONS = ['k > 0, table with at least 3 increasing k']


@st.composite
def strategy_(draw):
    t = draw(gen.tables(nmax=draw(st.sampled_from([4, 6, 20, 20, 200, 200, 2500]))))
    if draw(st.integers(0, 7)) == 0: t['zero'] = draw(st.lists(st.integers(-200, 200), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0: t['A'] = draw(gen.logfl(1e-25, 1e20))
    return {'table': t, 'k': draw(st.lists(gen.ktoken(), min_size=1, max_size=14)),
            'interp': draw(st.sampled_from(['poly', 'lin'])), 'many': draw(gen.manies()), 'seed': draw(st.integers(0, 99)),
            'strided': draw(st.booleans()), 'tail': draw(st.booleans())}


def strategy(tier):
    return strategy_()


# more points than two bytes can count
EXAMPLES = [{'table': {'n': 70000, 'kmin': 1e-4, 'kmax': 10., 'A': 1000., 'ns': 0.9, 'k0': 0.05, 'm': 1., 'spacing': 'log'}, 'k': [['frac', 0.05], ['frac', 0.93], ['node', 69990], ['frac', 0.99], ['frac', 0.5], ['below', 0.5], ['above', 2.], ['node', 40]], 'interp': i, 'many': 0, 'seed': 1, 'strided': False, 'tail': False} for i in ('poly', 'lin')]


def check(case, api):
    tk, tp = gen.table(case['table'])
    k = gen.many(gen.kvalues(tk, case['k']), case['many'], case['seed'])
    poly = case['interp'] == 'poly'
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    if case['strided']:
        lin = api.P.SpectrumLin()
        big = np.full((len(tk), 2), -1e30)
        big[:, 0] = tk
        lin['k'] = big[:, 0]
        big2 = np.full((len(tk), 3), -1e30)
        big2[:, 1] = tp
        lin['pk'] = big2[:, 1]
        s.set_spectrum_lin(lin)
    elif case['tail']:
        # the table ends where the array given ends, not where the memory behind does
        lin = api.P.SpectrumLin()
        big = [np.append(x, [np.nan] * 4) for x in (tk, tp)]
        lin['k'], lin['pk'] = big[0][:len(tk)], big[1][:len(tk)]
        s.set_spectrum_lin(lin)
    else:
        s.set_pk_lin(tk, tp)
    got = s.find_pk_lin(k, interpol=case['interp'])
    want, amp = ref.find_pk(tk, tp, k, poly, cond=True)
    out = (k < tk[0]) | (k > tk[-1])
    x = np.where(k < tk[0], np.log(tk[0] / k), np.log(k / tk[-1]))
    tol = 1e-10 * amp * (1. + np.where(out, np.abs(x), 0.)) + 1e-300
    i = np.clip(np.searchsorted(tk, k, side='right') - 1, 0, len(tk) - 1)
    tol = tol + 3e-15 * np.where(out, 0., np.max([np.abs(tp[np.clip(i + d, 0, len(tk) - 1)]) for d in range(-2, 4)], axis=0))
    if got.shape != want.shape: raise Violation('shape %s for %s values of k' % (got.shape, k.shape))
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('P(%r) = %r, expected %r (table of %d, k from %r to %r, %s)' % (
            k[i], got[i], want[i], len(tk), tk[0], tk[-1], case['interp']))
    node = np.isin(k, tk)
    for i in np.nonzero(node)[0]:
        j = np.searchsorted(tk, k[i])
        y = tp[j]
        if not abs(got[i] - y) <= 1e-13 * abs(y) + 1e-14 * np.abs(tp[max(0, j - 4):j + 5]).max(): raise Violation('P at node %r = %r, table has %r' % (k[i], got[i], y))
    perm = np.random.RandomState(case['seed']).permutation(len(k))
    again = s.find_pk_lin(k[perm], interpol=case['interp'])
    if not np.allclose(again, got[perm], rtol=1e-13, atol=1e-300): raise Violation('the value depends on the other k looked up with it')
    labels = [case['interp']] + (['outside'] if out.any() else []) + (['non-positive'] if (tp <= 0.).any() else [])
    if case['strided']: labels.append('strided')
    return {'nontrivial': bool((~out).sum() >= 2 and (~out & ~node).any() and (out.any() or (np.diff(k) < 0).any())),
            'labels': labels, 'comparisons': 2 * len(k)}
