"""Reference numerics, written from the documented definitions, not from pyregpt's code:
interpolation of a tabulated spectrum, Gauss-Legendre grids, the geometry of a mode coupling k = q + (k-q)."""
import math

import numpy as np

LD = np.longdouble


def gl(n, lo, hi):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (hi - lo) * x + 0.5 * (hi + lo), 0.5 * (hi - lo) * w


def qgrid(tk, prec):
    """Nodes in q and weights in ln q for prec = (n, min, max); the whole table if the range is not positive."""
    n, lo, hi = prec
    if lo <= 0. or hi <= 0.: lo, hi = tk[0], tk[-1]
    x, w = gl(n, np.log(lo), np.log(hi))
    return np.exp(x), w


def slope(tk, tp, i0, i1):
    """Mean logarithmic slope over the nodes i0..i1-1 (centred differences), or None if a value is not positive."""
    idx = np.arange(i0, i1)
    if len(idx) == 0: return None
    if np.any(tp[idx + 1] <= 0.) or np.any(tp[idx - 1] <= 0.): return None
    return np.mean(np.log(tp[idx + 1] / tp[idx - 1]) / np.log(tk[idx + 1] / tk[idx - 1]))


def extrapol(tk, tp, k):
    tk, tp, k = np.asarray(tk, 'f8'), np.asarray(tp, 'f8'), np.asarray(k, 'f8')
    n = len(tk)
    out = np.zeros(len(k))
    low, high = k < tk[0], k > tk[-1]
    if low.any():
        s = slope(tk, tp, 1, min(15, n - 1))
        if s is not None: out[low] = tp[1] * (k[low] / tk[1])**s
    if high.any():
        s = slope(tk, tp, max(1, n - 1 - 15), n - 1)
        if s is not None: out[high] = tp[-1] * (k[high] / tk[-1])**s
    return out


def find_pk(tk, tp, k, poly=True, cond=False):
    """Table lookup: inside, the polynomial through the nodes i-2..i+2 around the interval (or the straight
    line), outside a power law. With cond, also the sum of the absolute values of the terms."""
    tk, tp = np.asarray(tk, 'f8'), np.asarray(tp, 'f8')
    k = np.atleast_1d(np.asarray(k, 'f8'))
    shape = k.shape
    k = k.ravel()
    n = len(tk)
    out = extrapol(tk, tp, k)
    amp = np.abs(out)
    ins = (k >= tk[0]) & (k <= tk[-1])
    i = np.clip(np.searchsorted(tk, k, side='right') - 1, 0, n - 1)
    if poly:
        a, b = np.maximum(i - 2, 0), np.minimum(i + 2, n - 1)
        for length in np.unique((b - a)[ins]):
            sel = np.nonzero(ins & (b - a == length))[0]
            idx = a[sel][:, None] + np.arange(length + 1)
            x, y, kk = tk[idx].astype(LD), tp[idx].astype(LD), k[sel].astype(LD)[:, None]
            val = np.zeros(len(sel), LD)
            ab = np.zeros(len(sel), LD)
            for j in range(length + 1):
                L = np.ones(len(sel), LD)
                for m in range(length + 1):
                    if m != j: L = L * (kk[:, 0] - x[:, m]) / (x[:, j] - x[:, m])
                val += L * y[:, j]
                ab += np.abs(L * y[:, j])
            out[sel], amp[sel] = val, ab
    else:
        sel = np.nonzero(ins)[0]
        j = np.minimum(i[sel], n - 2)
        f = (k[sel] - tk[j]) / (tk[j + 1] - tk[j])
        out[sel] = (1. - f) * tp[j] + f * tp[j + 1]
        amp[sel] = np.abs((1. - f) * tp[j]) + np.abs(f * tp[j + 1])
    if cond:
        # rounding of the values at the neighbouring nodes, and of the slope outside
        near = np.max([np.abs(tp[np.clip(i + d, 0, n - 1)]) for d in range(-2, 4)], axis=0)
        far = np.abs(np.log(np.where(k < tk[0], tk[0] / k, np.maximum(k / tk[-1], 1e-300))))
        dl = np.min(np.diff(np.log(tk)))
        amp = np.where(ins, amp + 1e-3 * near, amp * (1. + far * (1. + 1e-3 / dl)))
    if cond: return out.reshape(shape), amp.reshape(shape)
    return out.reshape(shape)


def sigmad2(tk, tp, k, uv=0.5):
    """1/(6 pi^2) times the integral of the piecewise linear spectrum from the first node to uv*k."""
    k = np.atleast_1d(np.asarray(k, 'f8'))
    out = np.zeros(len(k))
    for j, kk in enumerate(k):
        hi = min(uv * kk, tk[-1])
        if uv * kk < tk[0]: continue
        m = int(np.searchsorted(tk, hi, side='right'))
        x = np.append(tk[:m], hi)
        y = np.append(tp[:m], np.interp(hi, tk, tp))
        out[j] = np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)) / (6. * np.pi**2)
    return out


def mugrid(k, q, qfirst, qlast, nmu, half):
    """Cosine of the angle between k and q: nodes, weights (len(q), nmu); |k-q| within the range of the nodes in
    q. half: only |k-q| >= q, for integrands symmetric under q <-> k-q. Weight 0 where nothing is left."""
    x0, w0 = np.polynomial.legendre.leggauss(nmu)
    x = q / k
    lo = np.maximum(-1., (1. + x**2 - (qlast / k)**2) / (2. * x))
    hi = np.minimum(1., (1. + x**2 - (qfirst / k)**2) / (2. * x))
    empty = (lo >= 1.) | (hi <= -1.) | (hi <= lo)
    if half: hi = np.where(x >= 0.5, 0.5 / x, hi)
    mu = 0.5 * (x0[None, :] + 1.) * (hi - lo)[:, None] + lo[:, None]
    w = 0.5 * (hi - lo)[:, None] * w0[None, :]
    w = np.where(empty[:, None], 0., w)
    mu = np.where(empty[:, None], 0., mu)
    return mu, w


class Modes(object):

    """Mode couplings k = q + (k-q) on the grid of nodes in q and in the cosine: arrays (nq, nmu).

    wt: measure d3q/(2pi)^3 with the weights (doubled if half of the modes are left out); slack: what the measure may be off
    by where the ends of the range of the cosine are only known up to rounding."""

    def __init__(self, k, q, w, nmu, half):
        mu, wmu = mugrid(k, q, q[0], q[-1], nmu, half)
        self.k, self.mu = k, mu
        self.q = q[:, None] + 0. * mu
        self.ok = wmu != 0.
        kq2 = k**2 + self.q**2 - 2. * k * self.q * mu
        self.r = np.where(self.ok, np.sqrt(np.maximum(kq2, 0.)), self.q)
        f = (2. if half else 1.) * q[:, None]**3 * w[:, None] / (4. * np.pi**2)
        self.wt = f * wmu
        x = q / k
        end = (1. + x**2 + (q[-1] / k)**2 * (np.abs(1. + x**2 - (q[-1] / k)**2) < 2.5 * x)) / x
        # rounding of the ends, relative to 1e-12
        self.slack = f * (np.abs(wmu) + 1e-3 * end[:, None] + 1e-3)
        self.big = np.maximum(k, np.maximum(self.q, self.r))
        self.small = np.minimum(k, np.minimum(self.q, self.r))

    def dot(self):
        """q.(k-q)"""
        return 0.5 * (self.k**2 - self.r**2 - self.q**2)


def polymul(a, b):
    out = [0.] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): out[i + j] = out[i + j] + x * y
    return out


def azav(k, p, nu, s2, mp, mr):
    """Average over the azimuth around k of (p_z)^mp (r_z)^mr for p + r = k, as coefficients of the powers of mu = k_z/k;
    nu: cosine of the angle between p and k, s2 = 1 - nu^2."""
    pow_p = []
    for m in range(mp + mr + 1):
        # <(mu nu + sqrt(1-mu^2) sqrt(1-nu^2) cos)^m>
        tot = [0.] * (m + 1)
        for j in range(m // 2 + 1):
            c = math.comb(m, 2 * j) * math.comb(2 * j, j) / 4.**j
            one = [1.]
            for _ in range(j): one = polymul(one, [1., 0., -1.])
            term = polymul([0.] * (m - 2 * j) + [c * nu**(m - 2 * j) * s2**j], one)
            for i, t in enumerate(term): tot[i] = tot[i] + t
        pow_p.append([t * p**m for t in tot])
    # (mu k - p_z)^mr
    out = [0.] * (mp + mr + 1)
    for j in range(mr + 1):
        c = math.comb(mr, j) * (-1)**j * k**(mr - j)
        for i, t in enumerate(pow_p[mp + j]): out[i + mr - j] = out[i + mr - j] + c * t
    return out


def rsd_a(k, p, nu, s2, r):
    """What multiplies the bispectra of (theta(p), X(r), Y(-k)) in the cubic redshift-space term, X, Y density or velocity:
    {(X, Y): {column: coefficient}}, columns ordered as mu^2 f, mu^2 f^2, mu^4 f^2, mu^4 f^3, mu^6 f^3."""
    g1 = azav(k, p, nu, s2, 1, 0)                                  # k_z p_z / p^2
    g2 = azav(k, p, nu, s2, 1, 2)                                  # k_z p_z / p^2 r_z^2 / r^2
    a, b, c = k * g1[1] / p**2, k * g2[1] / (p * r)**2, k * g2[3] / (p * r)**2
    return {(0, 0): {0: a}, (1, 0): {1: b, 2: c}, (0, 1): {2: a}, (1, 1): {3: b, 4: c}}


def rsd_a_both(m):
    """rsd_a of a Modes for theta on q, and for theta on k-q, in extended precision; also q, r used."""
    k, q, mu = LD(m.k), m.q.astype(LD), m.mu.astype(LD)
    r = np.sqrt(np.maximum(k * k + q * q - 2. * k * q * mu, LD(0.)))
    r = np.where(m.ok, r, q)
    s2 = (1. - mu) * (1. + mu)
    return rsd_a(k, q, mu, s2, r), rsd_a(k, r, (k - q * mu) / r, s2 * (q / r)**2, q), q, r
