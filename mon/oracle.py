"""Independent reference mathematics: spherical harmonics, exact region kernels, sample grids.

Nothing here uses sleplet; fields are synthesised from spherical harmonics computed by recursion,
not by the library's transform.
"""

from __future__ import annotations

import functools

import numpy as np


def elm(L):
    """Degrees and orders of the L**2 coefficients."""
    ell = np.concatenate([np.full(2 * l + 1, l) for l in range(L)])
    emm = np.concatenate([np.arange(-l, l + 1) for l in range(L)])
    return ell, emm


def legendre(L, theta):
    """N_lm P_lm(cos theta), Condon-Shortley phase, for all (l, m): shape (n_theta, L**2)."""
    theta = np.asarray(theta, float).reshape(-1)
    x, s = np.cos(theta), np.sin(theta)
    out = np.zeros((theta.size, L * L))
    pmm = np.full(theta.size, np.sqrt(1 / (4 * np.pi)))
    for m in range(L):
        if m > 0:
            pmm = -np.sqrt((2 * m + 1) / (2 * m)) * s * pmm
        a, b = None, pmm
        out[:, m * m + m + m] = b
        for l in range(m + 1, L):
            c1 = np.sqrt((4 * l * l - 1) / (l * l - m * m))
            c2 = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1)) if l - 1 > m else 0.0
            nxt = c1 * (x * b - (c2 * a if a is not None else 0))
            a, b = b, nxt
            out[:, l * l + l + m] = b
    ell, emm = elm(L)
    for l in range(L):
        for m in range(1, l + 1):
            out[:, l * l + l - m] = (-1) ** m * out[:, l * l + l + m]
    return out


def ylm(L, theta, phi):
    """Y_lm at the points: shape (n_points, L**2)."""
    theta, phi = np.broadcast_arrays(np.asarray(theta, float), np.asarray(phi, float))
    _, emm = elm(L)
    return legendre(L, theta.reshape(-1)) * np.exp(1j * np.outer(phi.reshape(-1), emm))


def grid(L):
    """The MWSS sample positions: thetas (L+1), phis (2L)."""
    return np.pi * np.arange(L + 1) / L, 2 * np.pi * np.arange(2 * L) / (2 * L)


@functools.lru_cache(maxsize=32)
def _grid_tables(L, resolution):
    th, ph = grid(resolution)
    _, emm = elm(L)
    return legendre(L, th), np.exp(1j * np.outer(emm, ph)), emm


def synthesise(flm, L, resolution=None):
    """Field of the coefficients on the MWSS grid of the resolution, from the definition."""
    R = resolution or L
    A, E, _ = _grid_tables(L, R)
    return (A * np.asarray(flm)[None, :]) @ E


def spin_synthesise(flm, L, spin, resolution=None):
    """Field of spin-weighted coefficients on the grid, by Wigner small-d from explicit sums."""
    R = resolution or L
    th, ph = grid(R)
    f = np.zeros((th.size, ph.size), complex)
    for l in range(L):
        for m in range(-l, l + 1):
            c = flm[l * l + l + m]
            if c == 0 or abs(spin) > l:
                continue
            d = np.array([wigner_d(l, m, -spin, t) for t in th])
            y = (-1) ** spin * np.sqrt((2 * l + 1) / (4 * np.pi)) * d
            f += c * y[:, None] * np.exp(1j * m * ph)[None, :]
    return f


@functools.lru_cache(maxsize=100000)
def wigner_d(l, m, n, beta):
    """d^l_mn(beta) = <l m| exp(-i beta Jy) |l n> by Wigner's sum (small l)."""
    from math import factorial as F

    s = 0.0
    c, si = np.cos(beta / 2), np.sin(beta / 2)
    pre = np.sqrt(float(F(l + m) * F(l - m) * F(l + n) * F(l - n)))
    for k in range(max(0, n - m), min(l + n, l - m) + 1):
        den = F(l + n - k) * F(k) * F(m - n + k) * F(l - m - k)
        s += (-1) ** (m - n + k) * c ** (2 * l + n - m - 2 * k) * si ** (m - n + 2 * k) / den
    return pre * s


def kernel(L, boxes):
    """D[a, b] = integral over the boxes of conj(Y_a) Y_b, to machine accuracy.

    boxes: list of (theta0, theta1, phi0, phi1), disjoint.
    """
    ell, emm = elm(L)
    x, w = np.polynomial.legendre.leggauss(2 * L + 40)
    D = np.zeros((L * L, L * L), complex)
    dm = emm[None, :] - emm[:, None]
    for t0, t1, p0, p1 in boxes:
        th = (t1 - t0) / 2 * x + (t0 + t1) / 2
        A = legendre(L, th)
        T = (A * (w * np.sin(th) * (t1 - t0) / 2)[:, None]).T @ A
        with np.errstate(divide="ignore", invalid="ignore"):
            Phi = np.where(dm == 0, p1 - p0, (np.exp(1j * dm * p1) - np.exp(1j * dm * p0)) / (1j * np.where(dm == 0, 1, dm)))
        D += T * Phi
    return D


def order_kernel(L, m, boxes):
    """The part of the kernel of rings that belongs to the order m >= 0, for degrees too high to compute all of it."""
    x, w = np.polynomial.legendre.leggauss(2 * L + 40)
    K = np.zeros((L - m, L - m))
    for t0, t1, p0, p1 in boxes:
        th = (t1 - t0) / 2 * x + (t0 + t1) / 2
        c, s = np.cos(th), np.sin(th)
        P = np.zeros((L - m, th.size))
        P[0] = np.sqrt(1 / (4 * np.pi))
        for k in range(1, m + 1):
            P[0] *= -np.sqrt((2 * k + 1) / (2 * k)) * s
        for l in range(m + 1, L):
            c1 = np.sqrt((4 * l * l - 1) / (l * l - m * m))
            c2 = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1)) if l - 1 > m else 0.0
            P[l - m] = c1 * (c * P[l - m - 1] - (c2 * P[l - m - 2] if l - 1 > m else 0))
        K += (P * (w * s * (t1 - t0) / 2 * (p1 - p0))) @ P.T
    return K


def boxes_of(region: dict):
    """Boxes of a region description of the cases."""
    k = region["type"]
    if k == "polar":
        return [(0.0, region["theta_max"], 0.0, 2 * np.pi)]
    if k == "gap":
        t = region["theta_max"]
        if t >= np.pi / 2:
            return [(0.0, np.pi, 0.0, 2 * np.pi)]
        return [(0.0, t, 0.0, 2 * np.pi), (np.pi - t, np.pi, 0.0, 2 * np.pi)]
    if k == "box":
        return [(region["theta_min"], region["theta_max"], region["phi_min"], region["phi_max"])]
    raise ValueError(k)


def area(boxes):
    return sum((np.cos(a) - np.cos(b)) * (d - c) for a, b, c, d in boxes)


def mask_of(region: dict, R):
    th, ph = grid(R)
    T, P = np.meshgrid(th, ph, indexing="ij")
    k = region["type"]
    if k == "polar":
        return T <= region["theta_max"]
    if k == "gap":
        return (T <= region["theta_max"]) | (T >= np.pi - region["theta_max"])
    return (T >= region["theta_min"]) & (T <= region["theta_max"]) & (P >= region["phi_min"]) & (P <= region["phi_max"])


def pixel_weights(R):
    """Solid angle of the samples, as the rectangle rule gives it."""
    th, ph = grid(R)
    return np.sin(th)[:, None] * (np.pi / R) * (2 * np.pi / (2 * R)) * np.ones((1, ph.size))


def mask_kernel(L, mask, R):
    """Kernel of a mask sampled on the grid of resolution R with the rectangle rule."""
    A, E, emm = _grid_tables(L, R)
    W = pixel_weights(R) * np.asarray(mask)
    # F[dm, theta] = sum_phi W exp(i dm phi)
    ph = grid(R)[1]
    dms = np.arange(-2 * (L - 1), 2 * (L - 1) + 1)
    F = W @ np.exp(1j * np.outer(ph, dms))
    D = np.zeros((L * L, L * L), complex)
    for m1 in range(-(L - 1), L):
        i1 = np.where(emm == m1)[0]
        for m2 in range(-(L - 1), L):
            i2 = np.where(emm == m2)[0]
            D[np.ix_(i1, i2)] = (A[:, i1] * F[:, m2 - m1 + 2 * (L - 1)][:, None]).T @ A[:, i2]
    return D


def near_half(x, eps=1e-9):
    """x is so close to a half-integer that its rounding is not decided."""
    return abs(x - np.floor(x) - 0.5) < eps


def hermitian(flm, L):
    """Conjugate of the mirrored coefficients: equal to flm for a real field."""
    ell, emm = elm(L)
    idx = ell * ell + ell - emm
    return (-1.0) ** emm * np.conj(np.asarray(flm)[idx])


def random_flm(rng, n, real_field_L=None):
    f = rng.standard_normal(n) + 1j * rng.standard_normal(n)
    if real_field_L:
        f = (f + hermitian(f, real_field_L)) / 2
    return f
