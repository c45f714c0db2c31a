"""The containers of columns: what a history of operations on them amounts to."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation

ID = 'C20'
RULE = ('a case is a history of operations on up to three instances of any class (creation from columns, zeros, set_terms, columns set, rows read and written by slice, mask, list or number, pop, '
        'copy, deepcopy, nan_to_zero, rescale, accessors), all contents compared with a model (a dict of arrays per instance) after every operation; non-trivial: at least three operations that change '
        'something, on at least two instances or with a column of several dimensions')
CASES = {'quick': 2800, 'thorough': 80000}
ASSUMPTIONS = ['columns are arrays of floats with one row per wavenumber', 'rows of an instance may be views of those of the original (as for arrays): the histories do not write into either without copying',
               'a copy is shallow, a deepcopy shares nothing']
CLS = ['SpectrumLin', 'SpectrumNoWiggle', 'Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
FIELDS = {'SpectrumLin': ['k', 'pk'], 'Spectrum1Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
          'Spectrum2Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree'],
          'Bias1Loop': ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq'],
          'A1Loop': ['k', 'pk_lin', 'sigmad2', 'pk']}
for c, d in (('SpectrumNoWiggle', 'SpectrumLin'), ('A2Loop', 'A1Loop'), ('B1Loop', 'A1Loop'), ('B2Loop', 'A1Loop')): FIELDS[c] = FIELDS[d]
# order in the linear power spectrum, to which each column is rescaled
ORDER = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2, 'pk_gamma2_tree_1loop': 3,
         'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
NCOL = {'A1Loop': 5, 'A2Loop': 5, 'B1Loop': 9, 'B2Loop': 9}


def order(cls, field):
    if field == 'pk': return 2 if cls[0] in 'AB' else 1
    return ORDER[field]


@st.composite
def index(draw):
    kind = draw(st.sampled_from(['slice', 'slice', 'mask', 'list', 'int', 'rev']))
    if kind == 'slice': return [kind, draw(st.one_of(st.none(), st.integers(-4, 6))), draw(st.one_of(st.none(), st.integers(-4, 9))), draw(st.sampled_from([None, 1, 2, -1]))]
    if kind == 'mask': return [kind, draw(st.integers(0, 999))]
    if kind == 'list': return [kind, draw(st.lists(st.integers(-3, 7), max_size=5))]
    if kind == 'int': return [kind, draw(st.integers(-3, 7))]
    return [kind]


OPS = ['new', 'zeros', 'setcol', 'setcol', 'extra', 'write', 'write', 'rows', 'rows', 'pop', 'copy', 'deepcopy', 'nan', 'nan', 'rescale', 'rescale', 'missing', 'touch']


@st.composite
def operation(draw):
    what, i = draw(st.sampled_from(OPS)), draw(st.integers(0, 2))
    seed = draw(st.integers(0, 999))
    if what == 'new': return [what, i, draw(st.sampled_from(CLS)), draw(st.integers(1, 9)), seed, draw(st.sampled_from(['kwargs', 'items', 'partial']))]
    if what == 'zeros': return [what, i, draw(st.integers(1, 9)), seed, draw(st.sampled_from(['zeros', 'set_terms', 'list', '2d']))]
    if what in ('setcol', 'pop', 'touch'): return [what, i, draw(st.integers(0, 10)), seed]
    if what == 'write': return [what, i, draw(index()), seed, draw(st.sampled_from(['scalar', 'array']))]
    if what == 'rows': return [what, i, draw(st.integers(0, 2)), draw(index())]
    if what in ('copy', 'deepcopy'): return [what, i, draw(st.integers(0, 2))]
    if what == 'nan': return [what, i, seed, draw(st.booleans())]
    if what == 'rescale': return [what, i, draw(st.one_of(st.sampled_from([1., 0., 2.]), gen.fl(0.1, 3., 3)))]
    return [what, i, seed]


@st.composite
def strategy_(draw):
    ops = [['new', i, draw(st.sampled_from(CLS)), draw(st.integers(1, 9)), draw(st.integers(0, 999)), draw(st.sampled_from(['kwargs', 'items']))] for i in range(draw(st.sampled_from([1, 2, 3])))]
    for i in range(draw(st.integers(2, 16))): ops.append(draw(operation()))
    return {'ops': ops}


def strategy(tier): return strategy_()


def columns(cls, n, seed):
    R = np.random.RandomState(seed)
    out = {f: R.standard_normal((n, NCOL[cls]) if f == 'pk' and cls in NCOL else n) for f in FIELDS[cls]}
    out['k'] = np.sort(R.uniform(0.01, 1., n))
    return out


def decode(ix, n):
    """The index, or None where it is out of range."""
    if ix[0] == 'slice': return slice(ix[1], ix[2], ix[3])
    if ix[0] == 'rev': return slice(None, None, -1)
    if ix[0] == 'mask': return np.random.RandomState(ix[1]).uniform(size=n) < 0.5
    if n == 0: return slice(None)
    if ix[0] == 'list': return [j % n for j in ix[1]] if ix[1] else np.zeros(0, int)
    return ix[1] if -n <= ix[1] < n else ix[1] % n


def same(what, got, want):
    got = np.asarray(got)
    if got.shape != want.shape: raise Violation('%s has the shape %r, expected %r' % (what, got.shape, want.shape))
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        bad &= ~(np.isfinite(want) & (np.abs(got - want) <= 4e-15 * np.abs(want)))
        if bad.any():
            j = tuple(np.argwhere(bad)[0])
            raise Violation('%s%s is %r, expected %r' % (what, [int(x) for x in j], got[j], want[j]))
    return want.size


def compare(what, s, m):
    cls, cols = m
    if type(s).__name__ != cls: raise Violation('%s is a %s, expected a %s' % (what, type(s).__name__, cls))
    if sorted(s.fields) != sorted(cols): raise Violation('%s has the columns %r, expected %r' % (what, sorted(s.fields), sorted(cols)))
    return sum(same('%s, column %s' % (what, f), s[f], cols[f]) for f in cols)


def accessors(what, s, m):
    cls, cols = m
    n = 0
    want = [f for f in FIELDS[cls] if f in cols]
    if list(s) != want: raise Violation('%s iterates over %r, expected %r' % (what, list(s), want))
    got = s.tolist()
    if len(got) != len(want): raise Violation('%s: tolist has %d columns, expected %d' % (what, len(got), len(want)))
    for f, x in zip(want, got): n += same('%s, tolist, %s' % (what, f), x, cols[f])
    d = s.as_dict()
    if sorted(d) != sorted(cols): raise Violation('%s: as_dict has the columns %r, expected %r' % (what, sorted(d), sorted(cols)))
    for f in d: n += same('%s, as_dict, %s' % (what, f), d[f], cols[f])
    if s.as_dict(fields=[]): raise Violation('%s: as_dict of no column has %r' % (what, sorted(s.as_dict(fields=[]))))
    if want:
        d = s.as_dict(fields=want[:2])
        if list(d) != want[:2]: raise Violation('%s: as_dict(%r) has the columns %r' % (what, want[:2], list(d)))
    for f in FIELDS[cls] + ['extra', 'no such column']:
        if (f in s) != (f in cols): raise Violation('%s: %r in it is %r' % (what, f, f in s))
    if 'k' in cols:
        if not (len(s) == s.size == len(cols['k'])): raise Violation('%s: len is %r, size %r, expected %r' % (what, len(s), s.size, len(cols['k'])))
        n += same('%s, k' % what, s.k, cols['k'])
    return n


def check(case, api):
    live, model = {}, {}
    n, changes, used, labels = 0, 0, set(), set()
    for num, op in enumerate(case['ops']):
        what, i = op[0], op[1]
        here = 'operation %d (%r)' % (num, op)
        if what == 'new':
            cls = op[2]
            cols = columns(cls, op[3], op[4])
            if op[5] == 'partial': cols = {f: cols[f] for j, f in enumerate(cols) if f == 'k' or (op[4] >> j) & 1}
            given = {f: v.copy() for f, v in cols.items()}
            if op[5] == 'items':
                s = getattr(api.P, cls)()
                for f in given: s[f] = given[f]
            else: s = getattr(api.P, cls)(**given)
            live[i], model[i] = s, (cls, cols)
        elif i not in live: continue
        s, (cls, cols) = live[i], model[i]
        rows = len(cols['k']) if 'k' in cols else None
        if what == 'zeros':
            k = np.random.RandomState(op[3]).uniform(0.01, 1., op[2])
            if op[4] == 'list': s.zeros(list(k))
            elif op[4] == '2d' and len(k) % 2 == 0: s.zeros(k.reshape(2, -1))
            elif op[4] == 'set_terms' and cls != 'SpectrumLin': s.set_terms(k)
            else: s.zeros(k)
            for f in FIELDS[cls]:
                if f in s and np.size(s[f]) != len(k) * (NCOL[cls] if f == 'pk' and cls in NCOL else 1): raise Violation('%s: column %s has %d elements' % (here, f, np.size(s[f])))
            if cls in NCOL: s.reshape()
            for f in FIELDS[cls]: cols[f] = np.zeros((len(k), NCOL[cls]) if f == 'pk' and cls in NCOL else len(k))
            cols['k'] = k.copy()
            if 'extra' in cols:
                cols.pop('extra')
                s.pop('extra')
        elif what == 'setcol':
            f = FIELDS[cls][op[2] % len(FIELDS[cls])]
            if rows is None: continue
            v = columns(cls, rows, op[3])[f]
            s[f], cols[f] = v.copy(), v
        elif what == 'extra':
            if rows is None: continue
            v = np.random.RandomState(op[2]).standard_normal((rows, 2))
            s['extra'], cols['extra'] = v.copy(), v
        elif what == 'write':
            if rows is None: continue
            ix = decode(op[2], rows)
            # one value for the rows of all columns: a number, or one value per row where all columns have one dimension
            count = cols['k'][ix].shape
            if op[4] == 'array' and count and not any(v.ndim > 1 for v in cols.values()): v = np.random.RandomState(op[3]).standard_normal(count)
            else: v = float(op[3]) / 7.
            s[ix] = v
            for f in cols: cols[f][ix] = v
        elif what == 'rows':
            if rows is None: continue
            ix = decode(op[3], rows)
            r = s[ix]
            want = (cls, {f: np.array(v[ix]) for f, v in cols.items()})
            n += compare(here, r, want)
            if np.ndim(want[1]['k']):
                live[op[2]], model[op[2]] = r.deepcopy(), want
                used.add(op[2])
        elif what == 'pop':
            f = FIELDS[cls][op[2] % len(FIELDS[cls])]
            if f not in cols or f == 'k': continue
            n += same('%s, what was removed' % here, s.pop(f), cols.pop(f))
        elif what == 'copy':
            c = s.copy()
            n += compare(here, c, model[i])
            del c
        elif what == 'deepcopy':
            live[op[2]], model[op[2]] = s.deepcopy(), (cls, {f: v.copy() for f, v in cols.items()})
            used.add(op[2])
        elif what == 'nan':
            R = np.random.RandomState(op[2])
            for f in cols:
                if f == 'k': continue
                m = R.uniform(size=cols[f].shape) < 0.3
                v = R.choice([np.nan, np.inf, -np.inf, -0.])
                s[f][m] = v
                cols[f][m] = v
            if op[3] and all(f in cols for f in FIELDS[cls]):
                s.nan_to_zero()
                for f in FIELDS[cls]: cols[f][np.isnan(cols[f])] = 0.
                labels.add('nan_to_zero')
        elif what == 'rescale':
            if 'extra' in cols or (op[2] == 0. and any(not np.isfinite(v).all() for v in cols.values())): continue
            s.rescale()     # by nothing
            s.rescale(op[2])
            for f in cols: cols[f] = cols[f] * op[2]**(2 * order(cls, f))
            labels.add('rescale')
        elif what == 'missing':
            for f in ['no such column'] + [f for f in FIELDS[cls] if f not in cols][:1]:
                try: s[f]
                except KeyError: pass
                else: raise Violation('%s: column %r is there' % (here, f))
                for name, call in (('pop', lambda: s.pop(f)), ('as_dict', lambda: s.as_dict(fields=['k', f]))):
                    try: call()
                    except KeyError: pass
                    else: raise Violation('%s: %s of %r, which is not there, is accepted' % (here, name, f))
            if rows is not None:
                # rows that are not there
                for ix in (rows, -rows - 1, [0, rows + 3], np.ones(rows + 1, bool)):
                    try: s[ix]
                    except IndexError: pass
                    else: raise Violation('%s: rows %r of %d are given' % (here, ix, rows))
                    try: s[ix] = 1.
                    except IndexError: pass
                    else: raise Violation('%s: rows %r of %d are set' % (here, ix, rows))
        elif what == 'touch':
            # an array read from the instance is that of the instance
            f = FIELDS[cls][op[2] % len(FIELDS[cls])]
            if f not in cols or not rows: continue
            s[f][op[3] % rows] = 0.25
            cols[f][op[3] % rows] = 0.25
        if what not in ('new', 'copy', 'missing', 'rows'): changes += 1
        used.add(i)
        labels.add(what)
        for j in live:
            n += compare('after %s: instance %d' % (here, j), live[j], model[j])
        n += accessors('after %s' % here, live[i], model[i])
    return {'nontrivial': changes >= 3 and (len(used) > 1 or any(v.ndim > 1 for m in model.values() for v in m[1].values())), 'labels': sorted(labels), 'comparisons': n}
