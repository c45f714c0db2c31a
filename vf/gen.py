"""Generators (Hypothesis strategies) of cases, as JSON, and their decoding."""
import numpy as np
from hypothesis import strategies as st


def rnd(x, n=6):
    return float(('%.' + str(n) + 'g') % x)


def fl(lo, hi, n=6):
    """Floats with few digits, readable when printed and quick to shrink."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: rnd(x, n))


def logfl(lo, hi, n=5):
    a, b = np.log10(lo), np.log10(hi)
    return st.floats(a, b, allow_nan=False).map(lambda x: rnd(10.**x, n))


@st.composite
def tables(draw, nmin=3, nmax=60, kmin=(1e-4, 1e-2), kmax=(0.6, 30.), rough=True, amp=(1e1, 1e5), flat=False):
    """A tabulated linear power spectrum."""
    t = {'n': draw(st.integers(nmin, nmax)), 'kmin': draw(logfl(*kmin)), 'kmax': draw(logfl(*kmax)),
         'A': draw(logfl(*amp)), 'ns': draw(fl(0.2, 1.2, 3)), 'k0': draw(logfl(0.01, 0.3, 3)),
         'm': draw(fl(0.8, 1.8, 3)), 'spacing': draw(st.sampled_from(['log', 'log', 'jitter', 'lin']))}
    if t['spacing'] == 'jitter': t['jit'] = draw(st.integers(0, 999))
    if draw(st.booleans()): t['bao'] = draw(fl(0.01, 0.3, 2))
    if rough and draw(st.integers(0, 2)) == 0:
        t['noise'] = draw(fl(0.01, 0.8, 2))
        t['seed'] = draw(st.integers(0, 999))
    return t


def table(t):
    if 'k' in t: return np.array(t['k'], 'f8'), np.array(t['pk'], 'f8')
    n = t['n']
    if t['spacing'] == 'lin': k = np.linspace(t['kmin'], t['kmax'], n)
    else:
        u = np.linspace(0., 1., n)
        if t['spacing'] == 'jitter' and n > 2:
            r = np.random.RandomState(t['jit']).uniform(-0.4, 0.4, n)
            r[0] = r[-1] = 0.
            u = u + r / (n - 1)
        k = t['kmin'] * (t['kmax'] / t['kmin'])**u
    pk = t['A'] * (k / 0.1)**t['ns'] / (1. + (k / t['k0'])**2)**t['m']
    if 'bao' in t: pk = pk * (1. + t['bao'] * np.sin(k * 105.) * np.exp(-(k * 7.)**2))
    if 'noise' in t: pk = pk * np.exp(t['noise'] * np.random.RandomState(t['seed']).standard_normal(n))
    if 'zero' in t:
        for i in t['zero']: pk[int(i) % n] = 0. if i >= 0 else -abs(pk[int(i) % n])
    return k, pk


def ktoken(inside_only=False):
    inside = [st.tuples(st.just('node'), st.integers(0, 200)),
              st.tuples(st.just('in'), st.integers(0, 200), fl(0.01, 0.99, 3)),
              st.tuples(st.just('frac'), fl(0., 1., 4)),
              st.tuples(st.just('nearnode'), st.integers(0, 200), st.sampled_from([-1, 1]))]
    out = [st.tuples(st.just('below'), logfl(1e-4, 0.999, 3)), st.tuples(st.just('above'), logfl(1.001, 1e4, 4)),
           st.tuples(st.just('edge'), st.sampled_from([0, 1]), st.sampled_from([-1, 0, 1]))]
    return st.one_of(*(inside if inside_only else inside + inside[1:3] + out)).map(list)


def ktoken_value(tk, tok):
    n, kind = len(tk), tok[0]
    if kind == 'node': return float(tk[tok[1] % n])
    if kind == 'nearnode': return float(np.nextafter(tk[1 + tok[1] % (n - 2)], np.inf if tok[2] > 0 else 0.))
    if kind == 'in':
        i = tok[1] % (n - 1)
        return float(tk[i] + tok[2] * (tk[i + 1] - tk[i]))
    if kind == 'frac': return float(min(max(tk[0] * (tk[-1] / tk[0])**tok[1], tk[0]), tk[-1]))
    if kind == 'below': return float(tk[0] * tok[1])
    if kind == 'above': return float(tk[-1] * tok[1])
    if kind == 'edge':
        base = tk[0] if tok[1] == 0 else tk[-1]
        return float(base if tok[2] == 0 else np.nextafter(base, np.inf if tok[2] > 0 else 0.))
    if kind == 'abs': return float(tok[1])
    raise ValueError(kind)


def many(k, n, seed=0):
    """n wavenumbers out of those, repeated and shuffled; half of the copies are moved."""
    if not n: return k
    r = np.random.RandomState(seed)
    x = np.resize(k, n)
    return r.permutation(np.where(r.rand(n) < 0.5, x, x * np.exp(r.normal(0., 0.3, n))))


def manies(): return st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.integers(15, 3000))


def kvalues(tk, tokens):
    return np.array([ktoken_value(tk, tok) for tok in tokens], 'f8')
