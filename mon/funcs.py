"""Catalogue of the function classes with valid parameters, shared by the checks."""

import numpy as np

import regions as rg

# name -> parameter sets (keyword arguments); those that need data files are in EARTH
FLM = {
    "DiracDelta": [{}],
    "Identity": [{}],
    "Gaussian": [{}, {"sigma": 3.0}, {"sigma": 0.5}],
    "HarmonicGaussian": [{}, {"l_sigma": 4.0, "m_sigma": 2.0}, {"l_sigma": 1.0, "m_sigma": 20.0}],
    "SquashedGaussian": [{}, {"t_sigma": 0.3, "freq": 0.5}, {"t_sigma": 1.0, "freq": 2.0}],
    "ElongatedGaussian": [{}, {"p_sigma": 0.3, "t_sigma": 0.8}],
    "SphericalHarmonic": [{}, {"ell": 2, "m": -1}, {"ell": 3, "m": 3}, {"ell": 1, "m": 1}],
    "AxisymmetricWavelets": [{}, {"B": 2, "j_min": 0}, {"B": 2, "j_min": 1, "j": 0}, {"B": 4, "j_min": 0, "j": 0}],
    "Ridgelets": [{}, {"B": 2, "j_min": 1, "spin": 0, "j": 0}, {"B": 3, "j_min": 1, "spin": 1, "j": 0}],
}
FP = {
    "Slepian": [{}, {"rank": 1}],
    "SlepianDiracDelta": [{}],
    "SlepianIdentity": [{}],
    "SlepianWavelets": [{}, {"B": 2, "j_min": 1, "j": 1}, {"B": 4, "j_min": 0, "j": 0}],
}
EARTH_FLM = {
    "Earth": [{}], "Wmap": [{}], "NoiseEarth": [{}, {"SNR": 3}],
    "Africa": [{}], "SouthAmerica": [{}],
    "AxisymmetricWaveletCoefficientsEarth": [{}, {"B": 2, "j_min": 1, "j": 0}],
    "AxisymmetricWaveletCoefficientsAfrica": [{}, {"B": 4, "j_min": 0, "j": 0}, {"B": 2, "j_min": 0, "j": 2}],
    "AxisymmetricWaveletCoefficientsSouthAmerica": [{"B": 2, "j_min": 1, "j": 1}, {"B": 3, "j_min": 0, "j": 1}],
}
EARTH_FP = {
    "SlepianAfrica": ("africa", [{}]), "SlepianNoiseAfrica": ("africa", [{}, {"SNR": 4}]),
    "SlepianWaveletCoefficientsAfrica": ("africa", [{}, {"B": 2, "j_min": 1, "j": 0}]),
    "SlepianSouthAmerica": ("south_america", [{}]), "SlepianNoiseSouthAmerica": ("south_america", [{}]),
    "SlepianWaveletCoefficientsSouthAmerica": ("south_america", [{}, {"B": 3, "j_min": 0, "j": 1}]),
}
MESH = {
    "MeshField": [{}], "MeshNoiseField": [{}, {"SNR": 3}], "MeshBasisFunctions": [{}, {"rank": 3}],
    "MeshSlepianField": [{}], "MeshSlepianNoiseField": [{}, {"SNR": 2}], "MeshSlepianFunctions": [{}, {"rank": 1}],
    "MeshSlepianWavelets": [{}, {"B": 2, "j_min": 1, "j": 0}, {"B": 4, "j_min": 0, "j": 0}],
    "MeshSlepianWaveletCoefficients": [{}, {"B": 2, "j_min": 1, "j": 0}, {"B": 3, "j_min": 0, "j": 0}],
}


def fn(name):
    import sleplet

    return getattr(sleplet.functions, name)


def meshfn(name):
    import sleplet

    return getattr(sleplet.meshes, name)


def flm_case(rng, L, names=None):
    name = rng.choice(sorted(names or FLM))
    return {"fn": name, "args": rng.choice(FLM[name]), "L": L}


def make(case, **kw):
    """A harmonic function of the catalogue."""
    return fn(case["fn"])(case["L"], **case["args"], **kw)


def make_fp(case, reg, **kw):
    return fn(case["fn"])(case["L"], region=rg.region_of(reg), **case["args"], **kw)


def own_function(flm, spin=0):
    """A function of the user's own, of given harmonic coefficients."""

    class Own(fn("SphericalHarmonic")):
        def _create_coefficients(self):
            return flm.copy()

        def _set_spin(self):
            return spin

    return Own
