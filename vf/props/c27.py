"""Arrays given in any form: the same numbers give the same results, and are left as they were."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation
from vf.props import c17

ID = 'C27'
RULE = ('a case is a calculation or a function, the numbers given to it and the form in which each array is given (list, tuple, single precision, integers, other byte order, strided, reversed, transposed, several dimensions, '
        'read-only, view of a larger array); the result is compared with that for plain arrays; non-trivial: at least one array in another form, and at least two numbers in it')
CASES = {'quick': 2400, 'thorough': 40000}
ASSUMPTIONS = ['numbers exactly representable in the form they are given in']
CLS = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
FORMS = ['list', 'tuple', 'f4', 'swapped', 'strided', 'reversed', 'transposed', '2d', 'fortran', 'readonly', 'offset', 'unaligned', 'numpy list', 'subclass', 'longdouble', 'f8']


class Mine(np.ndarray):
    pass


@st.composite
def strategy_(draw):
    form = lambda: draw(st.sampled_from(FORMS))   # noqa
    what = draw(st.sampled_from(['run', 'run', 'find', 'sigmad2', 'poly', 'lin', 'nowiggle', 'column', 'zeros', 'int', 'pad', 'interp', 'interp']))
    c = {'what': what, 'table': draw(gen.tables(nmin=4, nmax=14, rough=False)), 'forms': [form(), form(), form(), form()], 'k': draw(st.lists(gen.fl(0.02, 0.98, 3), min_size=1, max_size=6)),
         'given': draw(st.sampled_from(['set_pk_lin', 'set_spectrum_lin'])), 'seed': draw(st.integers(0, 999)), 'interp': draw(st.sampled_from(['lin', 'poly'])), 'cls': draw(st.sampled_from(CLS))}
    return c


def strategy(tier): return strategy_()


def make(x, form):
    x = np.asarray(x, 'f8')
    if form == 'list': return [float(v) for v in x]
    if form == 'tuple': return tuple(float(v) for v in x)
    if form == 'numpy list': return list(x)
    if form == 'f4': return x.astype('f4')
    if form == 'longdouble': return x.astype(np.longdouble)
    if form == 'swapped': return x.astype('>f8')
    if form == 'strided':
        y = np.full((len(x), 3), np.nan)
        y[:, 1] = x
        return y[:, 1]
    if form == 'reversed': return x[::-1].copy()[::-1]
    if form == 'transposed': return np.array([x, x * 0.5]).T.copy().T[0]
    if form == '2d': return x.reshape(2, -1) if len(x) % 2 == 0 else x.reshape(1, -1)
    if form == 'fortran': return np.asfortranarray(x.reshape(2, -1) if len(x) % 2 == 0 else x.reshape(-1, 1))
    if form == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    if form == 'offset': return np.concatenate([[np.nan, -1.], x, [np.inf]])[2:-1]
    if form == 'unaligned':
        raw = np.zeros(8 * len(x) + 1, 'u1')
        y = raw[1:].view('f8') if len(x) else np.zeros(0)
        y[...] = x
        return y
    if form == 'subclass': return x.copy().view(Mine)
    return x.copy()


FLAT = ['list', 'tuple', 'f4', 'swapped', 'strided', 'reversed', 'transposed', 'readonly', 'offset', 'unaligned', 'numpy list', 'subclass', 'longdouble', 'f8']


def flat(form):
    """One dimension: the forms for arguments that have one value per row."""
    return form if form in FLAT else 'f8'


def same(what, got, want, forms):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape: raise Violation('%s given as %r: result has the shape %r, %r for plain arrays' % (what, forms, got.shape, want.shape))
    bad = ~((got == want) | (np.isfinite(want) & (np.abs(got - want) <= 1e-10 * np.abs(want))) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        raise Violation('%s given as %r: result%s is %r, %r for plain arrays' % (what, forms, [int(i) for i in j], got[j], want[j]))
    return got.size


def check(case, api):
    P, what, forms = api.P, case['what'], case['forms']
    f4 = lambda x: np.asarray(np.asarray(x, 'f4'), 'f8')   # noqa: representable in all forms
    tk, tp = (f4(x) for x in gen.table(case['table']))
    k = f4(tk[0] * (tk[-1] / tk[0])**np.array(case['k']))
    R = np.random.RandomState(case['seed'])
    given = []

    def g(x, form):
        y = make(x, form)
        given.append((y, np.array(y)))
        return y

    def lin(s, fk, fp):
        if case['given'] == 'set_pk_lin': s.set_pk_lin(g(tk, fk), g(tp, fp))
        else: s.set_spectrum_lin(P.SpectrumLin(k=g(tk, flat(fk)), pk=g(tp, flat(fp))))

    if what in ('run', 'find', 'sigmad2', 'column', 'int', 'pad'):
        res = []
        cls = case['cls'] if what in ('run', 'int') else 'Spectrum1Loop'
        if what == 'int':
            # whole numbers (in units in which they are)
            tk, tp, k = np.arange(1., 12.), np.arange(1., 12.)[::-1] * 100., np.array([2., 3., 7.])
        for ff in (['f8'] * 4, forms):
            s = getattr(P, cls)()
            s.set_verbosity('quiet')
            for name, n in c17.SETS[cls].items(): s.set_precision(name, n=min(n, 5), **({'min': 1., 'max': 11.} if what == 'int' and name.endswith('_q') else {}))
            api.suave_points(c17.PTS)
            if what == 'int' and ff is forms:
                s.set_pk_lin([int(x) for x in tk], tp.astype('i4') if forms[0] != 'list' else [int(x) for x in tp])
                s.set_terms(np.array([2, 3, 7]) if forms[1] != 'list' else [2, 3, 7])
            else:
                lin(s, ff[0], ff[1])
                if what in ('run', 'int', 'column', 'pad'): s.set_terms(g(k, ff[2]))
            if what in ('run', 'int', 'column', 'pad'): s.run_terms(**({'a': 'delta', 'b': 'theta', 'nthreads': 2} if cls.startswith('Spectrum') else {'nthreads': 2}))
            if what == 'find': res.append({'pk': s.find_pk_lin(g(k, ff[2]), interpol=case['interp'])})
            elif what == 'sigmad2': res.append({'sigmad2': s.calc_running_sigmad2(g(k, ff[2]))})
            elif what == 'column':
                # columns given by the user, then used and computed again
                for f in s.FIELDS[1:]: s[f] = g(f4(np.linspace(0.5, 1., len(k))), flat(ff[3]) if flat(ff[3]) not in ('list', 'tuple', 'numpy list') else 'f8')
                r = {'before': np.asarray(s.pk(Dgrowth=0.8), 'f8')} if ff[3] not in ('f4', 'longdouble') else {}
                given[:] = [(y, z) for y, z in given if not isinstance(y, np.ndarray) or not any(np.may_share_memory(y, s[f]) for f in s.FIELDS)]   # those are to be written
                if any(not c.flags.writeable for c in (s[f] for f in s.FIELDS)):
                    for f in s.FIELDS: s[f] = np.array(s[f])
                s.run_terms(a='delta', b='theta', nthreads=1)
                r.update({f: np.array(s[f]) for f in s.FIELDS})
                res.append(r)
            elif what == 'pad':
                o = np.argsort(k)
                for f in s.FIELDS: s[f] = np.array(s[f][o])
                s.pad_k(g(np.concatenate([tk[:1] * 0.5, k[o], tk[-1:] * 2.]), 'f8' if flat(ff[3]) in ('list', 'tuple', 'numpy list') else flat(ff[3])))
                res.append({f: np.array(s[f]) for f in s.FIELDS})
            else: res.append({f: np.array(s[f]) for f in s.FIELDS})
            for y, _ in given:
                for f, v in list(res[-1].items()) + [(f, s[f]) for f in s.FIELDS if what in ('run', 'int', 'pad')]:
                    if isinstance(y, np.ndarray) and np.may_share_memory(y, v): raise Violation('%s, %s is in the memory of an array given' % (what, f))
        n = sum(same('%s, %s' % (what, f), res[1][f], res[0][f], forms) for f in res[0] if f in res[1])
        many = len(tk)
    else:
        s = P.PyRegPT()
        m = len(k) + 1
        if what in ('poly', 'lin'):
            m = 2 if what == 'lin' else m
            x, y, at = f4(np.cumsum(R.uniform(0.1, 1., m))), f4(R.standard_normal(m)), float(R.uniform(-1., 4.))
            func = s.interpol_poly if what == 'poly' else s.interpol_lin
            n = same('interpol_' + what, func(at, g(x, flat(forms[0])), g(y, flat(forms[1]))), func(at, x.copy(), y.copy()), forms[:2])
        elif what == 'interp':
            t = getattr(P, case['cls'])()
            t.zeros(np.linspace(0.1, 1., 5))
            t.reshape()
            for f in t.FIELDS[1:]: t[f][...] = R.uniform(0.1, 2., t[f].shape)
            forms = ['f8' if x == 'longdouble' else x for x in forms]    # np.interp does not take it
            ka, mu = f4(R.uniform(0., 1.2, len(k) + 1)), f4(R.uniform(0., 1., len(k) + 1))
            if hasattr(t, 'SHAPE') and 'pk' in t.SHAPE:
                # what mu2 is multiplied by itself requires an array
                m_ = forms[1] if forms[1] not in ('list', 'tuple', 'numpy list', 'f4', 'longdouble', '2d', 'fortran') else 'f8'
                kw = {'beta': 0.5, 'Dgrowth': 0.75}
                got, ref_ = t.pk_interp(g(ka, flat(forms[0])), g(mu, m_), **kw), t.pk_interp(ka.copy(), mu.copy(), **kw)
            elif 'pk' in dir(t): got, ref_ = t.pk_interp(g(ka, forms[0]), Dgrowth=0.75), t.pk_interp(np.array(make(ka, forms[0]), 'f8'), Dgrowth=0.75)
            else: got = ref_ = np.zeros(0)
            n = same('pk_interp', got, ref_, forms[:2])
            for y, _ in given:
                if isinstance(y, np.ndarray) and np.may_share_memory(y, got): raise Violation('the result of pk_interp is in the memory of an array given')
        elif what == 'nowiggle':
            res = []
            for ff in (['f8'] * 4, forms):
                t = P.SpectrumNoWiggle()
                t.set_terms(g(k, ff[0]))
                t.run_terms(pk=g(np.ones(len(k)), flat(ff[1])))
                res.append(t)
            n = same('pk without wiggles', res[1].pk(), res[0].pk(), forms[:2]) + same('k', res[1].k, k, forms[:1])
        else:
            t = getattr(P, case['cls'])()
            t.zeros(g(k, forms[0]))
            if isinstance(given[0][0], np.ndarray) and np.may_share_memory(given[0][0], t.k): raise Violation('zeros: k is in the memory of the array given')
            n = same('zeros', t.k, k, forms[:1])
            for f in t.FIELDS[1:]:
                if np.any(t[f]) or np.size(t[f]) % len(k): raise Violation('zeros: column %s is %r' % (f, t[f]))
        many = len(k)
    for y, z in given:
        if not np.array_equal(np.array(y), z, equal_nan=True): raise Violation('%s: an array given was changed from %r to %r' % (what, z.tolist(), np.array(y).tolist()))
    return {'nontrivial': any(f != 'f8' for f in forms) and many > 1, 'labels': [what] + (sorted(set(forms)) if n else []), 'comparisons': n}
