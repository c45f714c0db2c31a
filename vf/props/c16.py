"""Precision settings, cutoffs and their groups: what a history of settings amounts to."""
import numpy as np
from hypothesis import strategies as st

from vf import cfg, core, gen
from vf.core import Violation

ID = 'C16'
RULE = ('a case is a history of settings (single calculations and groups, number of points, range, interpolation, UV cutoff, clear) between creations of instances, '
        'changes of spectrum and runs, and the calculation observed at the end, compared with the same calculation in a process of its own to which only '
        'the settings the history amounts to are given, one by one and in full; non-trivial: the settings of the calculation observed are not all the defaults and at least two '
        'operations touched them')
CASES = {'quick': 1000, 'thorough': 12000}
ASSUMPTIONS = ['settings belong to the library: they are shared by all instances', 'a call that has nothing to set for a calculation resets it to its defaults (documented by clear)',
               'the Monte Carlo integrals run on the stand-in']

Q = [n for n in cfg.DEFAULTS if n.endswith('_q')]
MC = ['gamma3_tree_q', 'A_2loop_II_III_q']
MU = [n for n in cfg.DEFAULTS if n.endswith('_mu')]
PK = [n + '_pk_lin' for n in ['spectrum_1loop', 'spectrum_2loop', 'bias_1loop', 'bispectrum_1loop', 'A_1loop', 'A_2loop', 'B']]
UV = ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']
GROUPS = {'all': Q + MU, 'all_q': Q, 'all_mu': MU, 'all_pklin': PK, 'spectrum_1loop_q': ['gamma1_1loop_q', 'gamma2_tree_q'],
          'spectrum_2loop_q': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
          'gamma2_1loop_q': ['gamma2d_1loop_q', 'gamma2t_1loop_q'], 'A_2loop_q': ['A_2loop_I_q', 'A_2loop_II_III_q']}
# the settings each calculation depends on, and a cheap choice of the number of points
LOOPS = ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu']
USES = {'Spectrum1Loop': LOOPS + ['spectrum_1loop_pk_lin', 'uv spectrum_1loop'],
        'Spectrum2Loop': LOOPS + ['gamma1_2loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q', 'spectrum_2loop_pk_lin', 'uv spectrum_2loop'],
        'Bias1Loop': ['bias_1loop_q', 'bias_1loop_mu', 'bias_1loop_pk_lin', 'uv bias_1loop'],
        'A1Loop': ['A_1loop_q', 'A_1loop_mu', 'A_1loop_pk_lin', 'uv A_1loop'],
        'A2Loop': ['A_2loop_I_q', 'A_2loop_I_mu', 'A_2loop_II_III_q', 'A_2loop_pk_lin', 'uv A_2loop', 'bispectrum_1loop_pk_lin', 'uv bispectrum_1loop', 'gamma1_1loop_q', 'gamma2d_1loop_q',
                   'gamma2t_1loop_q'],
        'B1Loop': ['B_q', 'B_mu', 'B_pk_lin', 'uv B'], 'B2Loop': LOOPS + ['B_q', 'B_mu', 'B_pk_lin', 'uv B', 'spectrum_1loop_pk_lin', 'uv spectrum_1loop']}
CHEAP = {'Spectrum2Loop': ['spectrum_2loop_q', 'gamma2_tree_mu'], 'A2Loop': ['A_2loop_q', 'gamma2_1loop_q', 'A_2loop_I_mu'], 'B2Loop': ['spectrum_1loop_q', 'B_q']}


@st.composite
def setting(draw, names):
    name = draw(st.sampled_from(names))
    a = {}
    if draw(st.integers(0, 9)) > 0:
        if draw(st.booleans()): a['n'] = draw(st.integers(2, 9))
        kind = draw(st.integers(0, 3))
        if kind == 0: a['range'] = [-1., -1.]
        if kind == 1:
            lo = draw(gen.logfl(2e-3, 0.05, 3))
            a['range'] = [lo, gen.rnd(lo * draw(gen.logfl(3., 100., 3)), 4)]
        a['interpol'] = draw(st.sampled_from([None, 'poly', 'lin', 'lin']))
    return ['set', name, a]


@st.composite
def strategy_(draw):
    cls = draw(st.sampled_from(['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']))
    near = [n for n in USES[cls] if not n.startswith('uv')] + [g for g in GROUPS if set(GROUPS[g]) & set(USES[cls])]
    anyname = Q + MU + PK + list(GROUPS)
    uvs = [n[3:] for n in USES[cls] if n.startswith('uv')]
    op = st.one_of(setting(near), setting(near), setting(near), setting(anyname), st.tuples(st.just('uv'), st.sampled_from(uvs + uvs + UV + ['all']), st.sampled_from([0.25, 1., 2., 0.5, None])).map(list),
                   st.sampled_from([['clear'], ['new'], ['spec'], ['run', 'Spectrum1Loop'], ['run', 'B1Loop'], ['run', 'Bias1Loop'], ['look'], ['copy']]))
    ops = draw(st.lists(op, min_size=1, max_size=8))
    if draw(st.integers(0, 5)) == 0: ops += [['uv', draw(st.sampled_from(uvs)), draw(st.sampled_from([0.25, 2.]))], ['clear']] + draw(st.sampled_from([[], [['new']], [['run', 'B1Loop']]]))
    if draw(st.integers(0, 11)) > 0: ops = [['set', g, {'n': 4}] for g in CHEAP.get(cls, [])] + ops
    if cls == 'A2Loop' and ['clear'] in ops and draw(st.integers(0, 3)) > 0: ops.append(['set', 'gamma2_1loop_q', {'n': 5}])
    return {'cls': cls, 'table': draw(gen.tables(nmin=5, nmax=30, kmin=(1e-3, 2e-3), kmax=(1., 4.), amp=(1e2, 1e4))), 'ops': ops, 'k': draw(gen.logfl(0.02, 0.5, 3))}


def strategy(tier):
    return strategy_()


def model(ops):
    """The settings a history amounts to, and how many operations set each."""
    m, count = {}, {}
    for n in Q: m[n] = list(cfg.DEFAULTS[n]) + ['poly']
    for n in MU: m[n] = [cfg.DEFAULTS[n], None, None, 'poly']
    for n in PK: m[n] = 'poly'
    for n in UV: m['uv ' + n] = 0.5
    default = {k: (list(v) if isinstance(v, list) else v) for k, v in m.items()}

    def put(name, a):
        for leaf in GROUPS.get(name, [name]):
            count[leaf] = count.get(leaf, 0) + 1
            if leaf in PK:
                if a.get('interpol'): m[leaf] = a['interpol']
                continue
            change = False
            if a.get('n') and leaf not in MC: m[leaf][0], change = a['n'], True
            if 'range' in a and leaf not in MU: m[leaf][1], m[leaf][2], change = a['range'][0], a['range'][1], True
            if a.get('interpol'): m[leaf][3], change = a['interpol'], True
            if not change: m[leaf] = list(default[leaf])

    for op in ops:
        if op[0] == 'set': put(op[1], op[2])
        if op[0] == 'uv':
            for n in (UV if op[1] == 'all' else [op[1]]):
                m['uv ' + n] = 0.5 if op[2] is None else op[2]
                count['uv ' + n] = count.get('uv ' + n, 0) + 1
        if op[0] == 'clear':
            for k, v in default.items(): m[k] = list(v) if isinstance(v, list) else v
    return m, default, count


PTS = np.array([[0.62, 0.3, 0.71, 0.5, 0.4], [0.35, 0.6, 0.55, 0.2, 0.8], [0.5, 0.45, 0.3, 0.7, 0.15]])


def observe(api, s, cls, k, table):
    s.set_pk_lin(*table)
    api.suave_points(PTS)
    s.set_terms(k)
    s.run_terms(nthreads=1)
    return {f: np.array(s[f]) for f in s.FIELDS}


def fresh(api, m, cls, k, table):
    """In a process of its own: every setting given in full."""
    s = getattr(api.P, cls)()
    s.set_verbosity('quiet')
    for name in USES[cls]:
        v = m[name]
        if name.startswith('uv '): s.set_running_uvcutoff(name[3:], uvcutoff=v)
        elif name in PK: s.set_precision(name, interpol=v)
        elif name in MU: s.set_precision(name, n=v[0], interpol=v[3])
        elif name in MC: s.set_precision(name, min=v[1], max=v[2], interpol=v[3])
        else: s.set_precision(name, n=v[0], min=v[1], max=v[2], interpol=v[3])
    return observe(api, s, cls, k, table)


def check(case, api):
    cls = case['cls']
    m, default, count = model(case['ops'])
    table, other = gen.table(case['table']), gen.table({'n': 7, 'kmin': 2e-3, 'kmax': 1.5, 'A': 300., 'ns': 0.9, 'k0': 0.05, 'm': 1., 'spacing': 'log'})
    k = np.array([case['k'], case['k'] * 1.7])[:1 if cls == 'A2Loop' else 2]
    res = core.fork_call(fresh, (api, m, cls, k, table))
    if res[0] != 'ok': raise Violation('with the settings given in full: %s' % (res,))
    want = res[1]
    s = api.P.PyRegPT()
    s.set_verbosity('quiet')
    s.set_pk_lin(*other)
    api.suave_points(PTS)
    for op in case['ops']:
        if op[0] == 'set':
            a = {x: v for x, v in op[2].items() if v is not None and x != 'range'}
            if 'range' in op[2]: a['min'], a['max'] = op[2]['range']
            s.set_precision(op[1], **a)
        elif op[0] == 'uv':
            if op[2] is None: s.set_running_uvcutoff(op[1])
            else: s.set_running_uvcutoff(op[1], uvcutoff=op[2])
        elif op[0] == 'clear':
            s.clear()
            s.set_verbosity('quiet')
        elif op[0] == 'new':
            s = getattr(api.P, cls)()
            s.set_pk_lin(*table)
        elif op[0] == 'copy':
            s = s.deepcopy()
        elif op[0] == 'spec': s.set_pk_lin(*other)
        elif op[0] == 'look':
            s.find_pk_lin(k, interpol='lin')
            s.calc_running_sigmad2(k, uvcutoff=3.)
        elif op[0] == 'run':
            r = getattr(api.P, op[1])()
            r.set_pk_lin(*other)
            r.set_terms(k[:1])
            r.run_terms(nthreads=1)
    got = observe(api, getattr(api.P, cls)(), cls, k, table)
    n = 0
    for f in want:
        a, b = got[f], want[f]
        scale = np.max(np.abs(b), axis=-1, keepdims=True, initial=0., where=np.isfinite(b)) if b.ndim > 1 else np.abs(b)
        bad = ~(np.abs(a - b) <= 1e-9 * scale) & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
        if bad.any():
            i = np.argwhere(bad)[0]
            raise Violation('%s, column %s%s: %r after the history, %r with what it amounts to: %s' % (
                cls, f, i.tolist(), a[tuple(i)], b[tuple(i)], {x: m[x] for x in USES[cls] if m[x] != default[x]}))
        n += a.size
    changed = [x for x in USES[cls] if m[x] != default[x]]
    return {'nontrivial': len(changed) >= 1 and sum(count.get(x, 0) for x in USES[cls]) >= 2, 'labels': [cls] + (['defaults'] if not changed else []) + (['cleared'] if ['clear'] in case['ops'] else []),
            'comparisons': n}
