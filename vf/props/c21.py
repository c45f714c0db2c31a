"""Extension of an instance to more wavenumbers."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, gen, ref
from vf.core import Violation
from vf.props import c17, c20

ID = 'C21'
RULE = ('a case is an instance (columns arbitrary or computed), wavenumbers below, between and above its own, a mode of padding with its value, an interpolation, values given for a column, '
        'possibly padded twice or run again afterwards; non-trivial: at least one wavenumber is added, and the instance had at least two')
CASES = {'quick': 1600, 'thorough': 30000}
ASSUMPTIONS = ['wavenumbers of the instance increase, those added too', 'the UV cutoff is the default one', 'rows computed by the library are those of the default interpolation and cutoff']
CLS = ['SpectrumLin', 'SpectrumNoWiggle', 'Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']


@st.composite
def strategy_(draw):
    c = {'cls': draw(st.sampled_from(CLS)), 'table': draw(gen.tables(nmax=16)), 'k': sorted(draw(st.lists(gen.fl(0.2, 0.8, 3), min_size=1, max_size=6, unique=True))), 'seed': draw(st.integers(0, 999)),
         'pads': [{'below': draw(st.integers(0, 4)), 'mid': draw(st.integers(0, 5)), 'above': draw(st.integers(0, 4)), 'far': draw(st.booleans()), 'mode': draw(st.sampled_from(['constant', 'constant', 'edge', 'default'])),
                   'value': draw(st.sampled_from([None, 0., 1., -2.5])), 'interp': draw(st.sampled_from([None, 'poly', 'lin'])), 'given': draw(st.booleans()), 'keep': draw(st.booleans())}
                  for i in range(draw(st.sampled_from([1, 1, 2])))],
         'computed': draw(st.sampled_from([False, False, True])), 'again': draw(st.booleans()), 'nthreads': draw(st.sampled_from([1, 2]))}
    return c


def strategy(tier): return strategy_()


def run(s, nthreads):
    s.run_terms(**({'a': 'delta', 'b': 'theta', 'nthreads': nthreads} if type(s).__name__.startswith('Spectrum') else {'nthreads': nthreads}))


def check(case, api):
    cls, n, added = case['cls'], 0, 0
    tk, tp = gen.table(case['table'])
    k = tk[0] * (tk[-1] / tk[0])**np.array(case['k'])
    s = getattr(api.P, cls)()
    lib = hasattr(s, 'regpt')
    if lib:
        s.set_verbosity('quiet')
        for name, m in c17.SETS.get(cls, {}).items(): s.set_precision(name, n=min(m, 5))
        api.suave_points(c17.PTS)
        s.set_pk_lin(tk, tp)
    computed = lib and case['computed']
    if computed:
        s.set_terms(k)
        run(s, case['nthreads'])
        cols = {f: np.array(s[f]) for f in s.FIELDS}
    else:
        cols = c20.columns(cls, len(k), case['seed'])
        cols['k'] = k
        for f in cols: s[f] = cols[f].copy()
    for num, pad in enumerate(case['pads']):
        k = cols['k']
        R = np.random.RandomState(case['seed'] + num)
        lo = tk[0] * 0.01 if pad['far'] else tk[0]
        hi = tk[-1] * 100. if pad['far'] else tk[-1]
        below = np.unique(lo * (k[0] / lo)**R.uniform(0., 0.99, pad['below'])) if lo < k[0] else np.zeros(0)
        above = np.unique(k[-1] * (hi / k[-1])**R.uniform(0.01, 1., pad['above'])) if hi > k[-1] else np.zeros(0)
        mid = k if pad['keep'] else np.sort(R.uniform(k[0], k[-1], pad['mid']))
        new = np.concatenate([below, mid, above])
        kw = {}
        if pad['mode'] != 'default': kw['mode'] = pad['mode']
        if pad['value'] is not None and pad['mode'] != 'edge': kw['constant_values'] = pad['value']
        if lib and pad['interp']: kw['interpol'] = pad['interp']
        given = None
        if not lib and pad['given']: given = kw['pk'] = R.standard_normal(len(new))
        before = new.copy()
        s.pad_k(new, **kw)
        if not np.array_equal(before, new): raise Violation('the wavenumbers given have been changed')
        nb, na = len(below), len(above)
        added += nb + na
        want = {}
        for f, v in cols.items():
            if kw.get('mode') == 'edge': lo_, hi_ = np.repeat(v[:1], nb, axis=0), np.repeat(v[-1:], na, axis=0)
            else: lo_, hi_ = (np.full((m,) + v.shape[1:], kw.get('constant_values', 0.)) for m in (nb, na))
            if f == 'k': lo_, hi_ = below, above
            if f == 'pk' and given is not None: lo_, hi_ = given[:nb], given[len(given) - na:]
            want[f] = np.concatenate([lo_, v, hi_])
        K, look = want['k'], {}
        if lib:
            want['pk_lin'], amp = ref.find_pk(tk, tp, K, pad['interp'] != 'lin', cond=True)
            look['pk_lin'] = 1e-9 * amp + 1e-300
            want['sigmad2'] = ref.sigmad2(tk, tp, K, 0.5)
            look['sigmad2'] = 1e-10 * want['sigmad2'] + 1e-300
        what = 'pad_k(%r%s)' % (new.tolist(), ''.join(', %s=%r' % (a, b if a != 'pk' else b.tolist()) for a, b in kw.items()))
        if sorted(s.fields) != sorted(want): raise Violation('%s: columns %r' % (what, sorted(s.fields)))
        if len(s) != len(K): raise Violation('%s: %d rows, expected %d' % (what, len(s), len(K)))
        for f in want:
            got = np.asarray(s[f])
            if got.shape != want[f].shape: raise Violation('%s: column %s has the shape %r, expected %r' % (what, f, got.shape, want[f].shape))
            bad = ~((got == want[f]) | (np.isnan(got) & np.isnan(want[f])) | (np.abs(got - want[f]) <= look.get(f, 0.)))
            n += got.size
            if bad.any():
                j = tuple(np.argwhere(bad)[0])
                raise Violation('%s: column %s%s (%d below, %d own) is %r, expected %r' % (what, f, [int(x) for x in j], nb, len(k), got[j], want[f][j]))
        cols = want
    if lib and case['again']:
        # the instance as it is now can be run as any other
        run(s, case['nthreads'])
        t = getattr(api.P, cls)()
        t.set_pk_lin(tk, tp)
        t.set_terms(cols['k'])
        got = {f: np.array(s[f]) for f in s.FIELDS}
        run(t, case['nthreads'])
        for f in got:
            a, b = got[f], np.asarray(t[f])
            if a.shape != b.shape: raise Violation('run after pad_k: column %s has the shape %r, expected %r' % (f, a.shape, b.shape))
            if not np.allclose(a, b, rtol=1e-9, atol=0., equal_nan=True): raise Violation('run after pad_k: column %s is %r, expected %r' % (f, a.tolist(), b.tolist()))
            n += a.size
    return {'nontrivial': added > 0 and len(case['k']) > 1, 'labels': [cls, 'computed' if computed else 'arbitrary'] + sorted(set(p['mode'] for p in case['pads'])), 'comparisons': n}
