"""Synthetic data sets in the format of the published ones (EGM2008 topography, WMAP spectrum)."""

import os
import pathlib

import numpy as np

import oracle as o

TOPO = "EGM2008_Topography_flms_L2190.mat"
CL = "wmap_lcdm_pl_model_wmap7baoh0.mat"
RANGES = {"africa": 41, "south_america": 40}
ANGLES = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}


def earth_input(seed, L=40):
    """Coefficients as in the file: only m >= 0 given (the rest is filled by the reader)."""
    rng = np.random.default_rng(seed)
    flm = np.zeros(L * L, complex)
    for l in range(L):
        for m in range(l + 1):
            v = (rng.standard_normal() + 1j * rng.standard_normal()) * 3e2 / (1 + l) ** 1.5
            flm[l * l + l + m] = v.real if m == 0 else v
    # continents where the library looks for them: bumps at the points rotated to the pole
    for name in RANGES:
        b, a = center(name)
        Y = o.ylm(L, np.array([b]), np.array([a]))[0]
        ell, emm = o.elm(L)
        bump = 240 * np.conj(Y) * np.exp(-ell * (ell + 1) * 0.04)
        bump = bump.conj()  # the reader conjugates
        flm += np.where(emm >= 0, bump, 0)
    flm[0] = flm[0].real - 300
    return flm


def center(name):
    """Colatitude and longitude of the point that the rotation takes to the north pole."""
    a, b, g = np.deg2rad(ANGLES[name])
    # ssht rotates by D(alpha, beta, gamma): the pole of the rotated field looks at (beta, pi - gamma)
    return b, (np.pi - g) % (2 * np.pi)


def cl_input(seed, n=150):
    rng = np.random.default_rng(seed + 1)
    return 1000 / np.arange(2, n + 2.0) ** 2 * rng.uniform(0.5, 1.5, n)


def write(data, seed, L=40, unit=1):
    import scipy.io as sio

    d = pathlib.Path(data)
    d.mkdir(parents=True, exist_ok=True)
    flm, cl = earth_input(seed, L) * unit, cl_input(seed) * unit
    for name, v in ((TOPO, {"flm": flm[:, None]}), (CL, {"cl": cl[:, None]})):
        part = d / f"{name}.{os.getpid()}.part"  # another process may be reading the same data
        with part.open("wb") as f:
            sio.savemat(f, v)
        part.replace(d / name)
    return flm, cl


def populate(ctx, seed, L=40, unit=1):
    return write(os.environ["XDG_DATA_HOME"], seed, L, unit)


def full_earth(flm, L):
    """What the file means: the real field's coefficients, in the library's orientation."""
    ell, emm = o.elm(L)
    f = flm[:L * L].copy()
    mirror = o.hermitian(f, L)
    f = np.where(emm < 0, mirror, f)
    return f.conj()
