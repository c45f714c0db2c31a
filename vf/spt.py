"""Standard perturbation theory kernels from their recursion relations (Goroff et al. 1986,
Jain & Bertschinger 1994), independent of every formula in pyregpt's sources.

alpha(p,q) = (p+q).p/p^2, beta(p,q) = |p+q|^2 p.q/(2 p^2 q^2);
F_n, G_n symmetrised by summing over ordered splits of the set of momenta.
"""
import itertools
import math

import numpy as np


def _dot(a, b):
    return (a * b).sum(-1)


def fg_sym(vecs):
    """Symmetrised (F_n, G_n) for arrays of 3-vectors (all of shape (..., 3))."""
    n = len(vecs)
    vecs = [np.asarray(v) for v in vecs]
    scale = max(_dot(v, v) for v in vecs) if vecs[0].ndim == 1 else np.max([_dot(v, v) for v in vecs], axis=0)
    mom = {}
    for mask in range(1, 1 << n):
        tot = 0.
        for i in range(n):
            if mask >> i & 1: tot = tot + vecs[i]
        mom[mask] = tot
    sq = {mask: _dot(mom[mask], mom[mask]) for mask in mom}
    F = {1 << i: 1. for i in range(n)}
    G = dict(F)
    masks = sorted(mom, key=lambda m: bin(m).count('1'))
    for mask in masks:
        m = bin(mask).count('1')
        if m == 1: continue
        f = g = 0.
        sub = (mask - 1) & mask
        while sub:
            oth = mask ^ sub
            na = bin(sub).count('1')
            w = np.longdouble(1.) / math.comb(m, na)
            p2, q2 = sq[sub], sq[oth]
            pq = _dot(mom[sub], mom[oth])
            zero = (p2 < 1e-26 * scale) | (q2 < 1e-26 * scale)
            with np.errstate(all='ignore'):
                al = (p2 + pq) / p2
                be = sq[mask] * pq / (2. * p2 * q2)
            al = np.where(zero, 0., al)
            be = np.where(zero, 0., be)
            ga = G[sub] * w
            f = f + ga * ((2 * m + 1) * al * F[oth] + 2. * be * G[oth])
            g = g + ga * (3. * al * F[oth] + 2. * m * be * G[oth])
            sub = (sub - 1) & mask
        c = (2. * m + 3.) * (m - 1.)
        F[mask], G[mask] = f / c, g / c
    full = (1 << n) - 1
    return F[full], G[full]


def f2(theta, k1, k2, k3):
    """F2 (theta=False) or G2 of two modes of lengths k1, k2 whose sum has length k3."""
    pq = 0.5 * (k3**2 - k1**2 - k2**2)
    al = 0.5 * (2. + pq * (1. / k1**2 + 1. / k2**2))
    be = k3**2 * pq / (2. * k1**2 * k2**2)
    return (3. * al + 4. * be) / 7. if theta else (5. * al + 2. * be) / 7.


def _sphere(axis, q, delta, nmu, nphi):
    """Points and weights (sum 1) on the half sphere about axis, refined towards it."""
    x, w = np.polynomial.legendre.leggauss(nmu)
    lo, hi = np.log(delta), np.log(1. + delta)
    u = 0.5 * (hi - lo) * (x + 1.) + lo
    omm = np.exp(u) - delta          # 1 - mu
    wmu = w * 0.5 * (hi - lo) * np.exp(u)
    phi = (np.arange(nphi) + 0.5) * 2. * np.pi / nphi
    e3 = axis / np.sqrt(_dot(axis, axis))
    t = np.array([0., 1., 0.]) if abs(e3[1]) < 0.9 else np.array([1., 0., 0.])
    e1 = np.cross(t, e3)
    e1 /= np.sqrt(_dot(e1, e1))
    e2 = np.cross(e3, e1)
    mu = (1. - omm)[:, None]
    s = np.sqrt(np.maximum(omm * (2. - omm), 0.))[:, None]
    pts = q * (mu[..., None] * e3 + (s * np.cos(phi))[..., None] * e1 + (s * np.sin(phi))[..., None] * e2)
    wts = np.broadcast_to(wmu[:, None] / nphi, pts.shape[:2])
    return pts.reshape(-1, 3), wts.ravel()


def fg4_avg(k1, k2, k3, q, nmu=40, nphi=48):
    """Averages over the directions of q of F4, G4, |F4|, |G4| (k1, k2, q, -q), with |k1+k2| = k3."""
    c = np.clip((k3**2 - k1**2 - k2**2) / (2. * k1 * k2), -1., 1.)
    v1 = np.array([0., 0., k1])
    v2 = k2 * np.array([np.sqrt(1. - c * c), 0., c])
    cands = [(abs(np.log(k1 / q)), v1, k1), (abs(np.log(k2 / q)), v2, k2), (abs(np.log(k3 / q)), v1 + v2, k3)]
    _, ax, kk = min(cands, key=lambda t: t[0])
    delta = max((q - kk)**2 / (2. * q * kk), 1e-12)
    delta = min(delta, 10.)
    pts, w = _sphere(ax, q, delta, nmu, nphi)
    one = np.ones((len(pts), 1))
    F, G = fg_sym([one * v1, one * v2, pts, -pts])
    return float((F * w).sum()), float((G * w).sum()), float((abs(F) * w).sum()), float((abs(G) * w).sum())


def fg3_avg(k, q, nmu=64):
    """Averages over the directions of q of F3, G3 (k, q, -q), for an array of q."""
    q = np.asarray(q, 'f8').astype(np.longdouble)     # for the cancellation at q >> k
    k = np.longdouble(k)
    shape = q.shape
    q = np.atleast_1d(q)
    delta = np.clip((q - k)**2 / (2. * q * k), 1e-12, 10.)[:, None]
    x, w = np.polynomial.legendre.leggauss(nmu)
    lo, hi = np.log(delta), np.log(1. + delta)
    u = 0.5 * (hi - lo) * (x + 1.) + lo
    omm = np.exp(u) - delta
    wmu = w * 0.5 * (hi - lo) * np.exp(u)
    mu = 1. - omm
    s = np.sqrt(np.maximum(omm * (2. - omm), 0.))
    pts = q[:, None, None] * np.stack([s, 0. * s, mu], -1)
    F, G = fg_sym([np.broadcast_to(np.array([0., 0., k]), pts.shape), pts, -pts])
    return (F * wmu).sum(-1).astype('f8').reshape(shape), (G * wmu).sum(-1).astype('f8').reshape(shape)
