"""C15: invalid input is refused, valid input is accepted (and used as given)."""

import contextlib
import io
import math
import os
import random
import sys

import numpy as np

import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "an evaluation is non-trivial when the value lies on or next to a limit of its range, or is a malformed argument; distinct by parameter and value"
REQUIRED = {"region-angle": 150, "region-assign": 100, "region-order": 18, "region-type": 20, "polar": 60, "harmonic": 200, "wavelet-scale": 120, "extra-number": 150,
            "extra-meaning": 60, "rank": 25, "decomposition": 25, "mask": 10, "names": 40, "continent": 15, "mesh": 40, "kinds": 40}
# what a refusal looks like; a KeyError or ZeroDivisionError of some inner computation does not say what was wrong
REFUSAL = (ValueError, TypeError, RuntimeError, AttributeError, IndexError, AssertionError, NotImplementedError, OSError)
PI = float(np.pi)
LIMITS = {"theta_min": (0.0, PI), "theta_max": (0.0, PI), "phi_min": (0.0, 2 * PI), "phi_max": (0.0, 2 * PI)}
# extra arguments: function -> (parameters set, transformation)
TEN = lambda x: 10.0**x  # noqa: E731
SAME = lambda x: x  # noqa: E731
EXTRA_ARGS = {
    "Gaussian": (["sigma"], TEN), "HarmonicGaussian": (["l_sigma", "m_sigma"], TEN), "SquashedGaussian": (["t_sigma", "freq"], TEN),
    "ElongatedGaussian": (["t_sigma", "p_sigma"], TEN), "SphericalHarmonic": (["ell", "m"], SAME),
    "AxisymmetricWavelets": (["B", "j_min", "j"], SAME), "Ridgelets": (["B", "j_min", "spin", "j"], SAME),
    "DiracDelta": ([], SAME), "Identity": ([], SAME),
    "Slepian": (["rank"], SAME), "SlepianWavelets": (["B", "j_min", "j"], SAME), "SlepianDiracDelta": ([], SAME), "SlepianIdentity": ([], SAME),
    "Earth": ([], SAME), "Wmap": ([], SAME), "Africa": ([], SAME), "SouthAmerica": ([], SAME), "NoiseEarth": (["SNR"], SAME),
    "AxisymmetricWaveletCoefficientsEarth": (["B", "j_min", "j"], SAME), "AxisymmetricWaveletCoefficientsAfrica": (["B", "j_min", "j"], SAME),
    "AxisymmetricWaveletCoefficientsSouthAmerica": (["B", "j_min", "j"], SAME),
    "SlepianAfrica": ([], SAME), "SlepianNoiseAfrica": (["SNR"], SAME), "SlepianWaveletCoefficientsAfrica": (["B", "j_min", "j"], SAME),
    "SlepianSouthAmerica": ([], SAME), "SlepianNoiseSouthAmerica": (["SNR"], SAME), "SlepianWaveletCoefficientsSouthAmerica": (["B", "j_min", "j"], SAME),
    "MeshField": ([], SAME), "MeshNoiseField": (["SNR"], SAME), "MeshBasisFunctions": (["rank"], SAME), "MeshSlepianField": ([], SAME),
    "MeshSlepianNoiseField": (["SNR"], SAME), "MeshSlepianFunctions": (["rank"], SAME), "MeshSlepianWavelets": (["B", "j_min", "j"], SAME),
    "MeshSlepianWaveletCoefficients": (["B", "j_min", "j"], SAME),
}
GOOD = {"sigma": [0, 1, -1, 2], "l_sigma": [0, 1], "m_sigma": [0, 1, -1], "t_sigma": [0, -1, 1], "freq": [0, -1, 1], "p_sigma": [0, -1],
        "ell": [0, 2, 1], "m": [0, 1, -1], "B": [2, 3], "j_min": [0, 1], "j": [0, 1], "spin": [0, 1, -1, 2], "rank": [0, 1], "SNR": [10, -5, 0]}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    k = 1 if q else 12
    for _ in range(2 * k):
        out.append({"kind": "region", "sub": rng.randrange(10**9)})
        out.append({"kind": "types", "sub": rng.randrange(10**9)})
    for _ in range(2 * k):
        out.append({"kind": "polar", "L": rng.randint(2, 7), "sub": rng.randrange(10**9)})
    for L in [1, 2, 3, rng.randint(4, 6)] + ([] if q else [8, 13]):
        out.append({"kind": "harmonic", "L": L, "sub": rng.randrange(10**9)})
    for _ in range(4 * k):
        out.append({"kind": "wavelets", "L": rng.randint(1, 33), "sub": rng.randrange(10**9)})
    for _ in range(2 * k):
        out.append({"kind": "extra", "sub": rng.randrange(10**9), "w": 3})
        out.append({"kind": "decomposition", "L": rng.randint(2, 6), "sub": rng.randrange(10**9)})
        out.append({"kind": "masks", "sub": rng.randrange(10**9)})
        out.append({"kind": "mesh", "name": rng.choice(ml.NAMES), "nb": rng.randint(10, 25), "sub": rng.randrange(10**9), "w": 3})
        out.append(treelib.cases_on(rng, 3, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(5, 18), "sub": rng.randrange(10**9)}]))
        out.append({"kind": "names", "sub": rng.randrange(10**9)})
        out.append({"kind": "continents", "sub": rng.randrange(10**9), "w": 5})
    return out


def refuse(ctx, fn, monitor, msg):
    ctx.nontrivial(msg)
    return ctx.raises(fn, monitor, f"{msg} (invalid)", REFUSAL)


def accept(ctx, fn, monitor, msg):
    return ctx.accepts(fn, monitor, f"{msg} (valid)")


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]))


# ---------------------------------------------------------------- regions
def do_region(ctx, case, rng):
    import sleplet

    R = sleplet.slepian.Region
    usual = {"theta_min": 0.3, "theta_max": 2.0, "phi_min": 0.4, "phi_max": 5.0}
    for name, (lo, hi) in LIMITS.items():
        other = name[:-3] + ("min" if name.endswith("max") else "max")
        base = {**usual, other: lo if name.endswith("max") else hi}
        good = [lo, hi, np.nextafter(lo, 1), np.nextafter(hi, 0), rng.uniform(lo, hi), rng.uniform(lo, hi), (lo + hi) / 2]
        bad = [-5e-324, -1e-12, np.nextafter(hi, 9), hi + 1e-12, -rng.uniform(0, 1) - 1e-9, hi + rng.uniform(1e-9, 10), hi * 2, -hi, -np.inf, np.inf]
        for v in good:
            v = float(v)
            r = accept(ctx, lambda: R(**{**base, name: v}), "region-angle", f"Region {name}={v!r}")
            if r is not None:
                ctx.check(getattr(r, name) == v, "region-angle", f"Region {name}={v!r} became {getattr(r, name)!r}")
                ctx.check(all(getattr(r, k) == x for k, x in base.items() if k != name), "region-angle", f"Region {name}={v!r} changed other limits")
        for v in bad:
            refuse(ctx, lambda: R(**{**base, name: float(v)}), "region-angle", f"Region {name}={float(v)!r}")
        for v in bad[:6] + good:
            v = float(v)
            r = R(**base)
            valid = lo <= v <= hi
            if valid:
                accept(ctx, lambda: setattr(r, name, v), "region-assign", f"Region.{name} := {v!r}")
                ctx.check(getattr(r, name) == v, "region-assign", f"Region.{name} := {v!r} gave {getattr(r, name)!r}")
            else:
                refuse(ctx, lambda: setattr(r, name, v), "region-assign", f"Region.{name} := {v!r}")
                ctx.check(getattr(r, name) == base[name], "region-assign", f"refused Region.{name} := {v!r} left {getattr(r, name)!r}")
        for v in ["wide", None, [1.0], {}]:
            refuse(ctx, lambda: R(**{**base, name: v}), "kinds", f"Region {name}={v!r}")
    # no restriction
    for kw in [{}, {"theta_max": PI}, {"gap": True}, {"theta_min": 0.0}, {"phi_max": 2 * PI, "phi_min": 0.0}, {"mask_name": ""},
               {"gap": True, "theta_max": PI, "theta_min": 0, "phi_min": 0, "phi_max": 2 * PI}]:
        refuse(ctx, lambda: R(**kw), "region-type", f"Region({kw})")
    for kw in [{"theta_max": 1.0}, {"mask_name": "africa"}, {"mask_name": "anything"}, {"phi_max": 1.0}, {"theta_min": 1e-9}, {"theta_max": float(np.nextafter(PI, 0))},
               {"phi_min": 1e-9}, {"gap": True, "theta_max": 0.4}]:
        accept(ctx, lambda: R(**kw), "region-type", f"Region({kw})")
    # limits in the wrong order
    L = rng.randint(2, 6)
    for which in ("theta", "phi", "both"):
        for tiny in (True, False):
            lims = dict(usual)
            for a in ("theta", "phi"):
                lo, hi = sorted(rng.uniform(0.01, LIMITS[f"{a}_max"][1] - 0.01) for _ in "ab")
                if which in (a, "both"):
                    lo, hi = (float(np.nextafter(hi, 9)), hi) if tiny else (hi + 0.005, lo)
                lims |= {f"{a}_min": lo, f"{a}_max": hi}
            refuse(ctx, lambda: R(**lims), "region-order", f"Region({lims})")
            refuse(ctx, lambda: sleplet.slepian.SlepianLimitLatLon(L, **lims), "region-order", f"box {lims}")
            r = R(**{**lims, "theta_min": 0.0, "phi_min": 0.0})

            def assigned():
                r.theta_min, r.phi_min = lims["theta_min"], lims["phi_min"]
                return sleplet.slepian_methods.choose_slepian_method(L, r)

            refuse(ctx, assigned, "region-order", f"the region assigned {lims}")
    # the limits in force decide, whether given or assigned later
    r = R(theta_max=1.0)
    v = rng.uniform(0.1, 3)
    r.theta_max = v
    ctx.check(r == R(theta_max=v), "region-assign", f"{r} after assignment is not {R(theta_max=v)}")
    L = rng.randint(4, 9)
    for name, v in [("theta_min", 0.05), ("phi_max", 3.0), ("phi_min", 1.0), ("gap", True), ("theta_max", 1.7)]:
        r = R(theta_max=0.9)
        setattr(r, name, v)
        s = R(**{"theta_max": 0.9, name: v})
        f = accept(ctx, lambda: fc.fn("Gaussian")(L, region=r), "region-assign", f"function of a region with {name} := {v}")
        g = fc.fn("Gaussian")(L, region=s)
        if f is not None:
            ctx.same(f.coefficients, g.coefficients, "region-assign", f"region with {name} := {v} assigned or given")
            ctx.check(f.name == g.name, "region-assign", f"{name} := {v}: names {f.name} and {g.name}")


def do_types(ctx, case, rng):
    """Values of the wrong kind."""
    F = fc.fn
    for L in ["x", 1.5, None, [3]]:
        refuse(ctx, lambda: F("Gaussian")(L), "kinds", f"Gaussian L={L!r}")
        refuse(ctx, lambda: F("DiracDelta")(L), "kinds", f"DiracDelta L={L!r}")
    for k, v in [("sigma", "wide"), ("noise", "loud"), ("smoothing", "much"), ("smoothing", 1.5), ("region", 3), ("region", "africa"), ("extra_args", 3),
                 ("extra_args", ["a"]), ("extra_args", [1.5])]:
        refuse(ctx, lambda: F("Gaussian")(5, **{k: v}), "kinds", f"Gaussian {k}={v!r}")
    g = F("Gaussian")(5)
    for k, v in [("sigma", "wide"), ("noise", "loud"), ("smoothing", "much"), ("region", 3), ("extra_args", ["a"]), ("L", "x")]:
        old = getattr(g, k)
        refuse(ctx, lambda: setattr(g, k, v), "kinds", f"Gaussian.{k} := {v!r}")
        ctx.check(getattr(g, k) is old or getattr(g, k) == old, "kinds", f"refused {k} := {v!r} left {getattr(g, k)!r}")
    for k, v in [("B", "x"), ("j", "x"), ("j", 0.5), ("j_min", 0.5), ("B", 2.5)]:
        ctx.raises(lambda: F("AxisymmetricWavelets")(8, **{k: v}), "kinds", f"AxisymmetricWavelets {k}={v!r}", (*REFUSAL, KeyError))
    # accepted and used as given
    for _ in range(4):
        v = rng.uniform(0.3, 30)
        f = accept(ctx, lambda: F("Gaussian")(5, sigma=v), "kinds", f"Gaussian sigma={v}")
        if f is not None:
            ctx.check(f.sigma == v and f.L == 5 and f.extra_args is None, "kinds", f"sigma={v} became {f.sigma}")
            ell, m = o.elm(5)
            ctx.close(f.coefficients, np.where(m == 0, np.exp(-ell * (ell + 1) / (2 * v * v)), 0), 1e-13, "kinds", f"sigma={v}")
            w = rng.uniform(0.3, 30)
            accept(ctx, lambda: setattr(f, "sigma", w), "kinds", f"sigma := {w}")
            ctx.check(f.sigma == w, "kinds", f"sigma := {w} became {f.sigma}")
    import sleplet

    P = sleplet.plotting.PlotSphere
    import plotly.io as pio

    shown, old = [], pio.show
    pio.show = lambda *a, **k: shown.append(1)
    try:
        for bad in ["Real", "phase", "", "re", "REAL"]:
            # (the KeyError names the type)
            ctx.raises(lambda: P(field(g), 5, "n", plot_type=bad).execute(), "kinds", f"plot type {bad!r}", (*REFUSAL, KeyError))
        for good in ["real", "imag", "abs", "sum"]:
            accept(ctx, lambda: P(field(g), 5, "n", plot_type=good).execute(), "kinds", f"plot type {good!r}")
        refuse(ctx, lambda: P(field(g), 6, "n", upsample=False).execute(), "kinds", "plot of a field of another band-limit")
        refuse(ctx, lambda: P(field(g)[:-1], 5, "n", upsample=False).execute(), "kinds", "plot of a field with a missing row")
    finally:
        pio.show = old
    ctx.check(len(shown) == 4, "kinds", f"{len(shown)} plots shown of 4 valid and 7 invalid ones")


def field(f):
    import pyssht

    return pyssht.inverse(f.coefficients, f.L, Method="MWSS", Reality=f.reality)


# ---------------------------------------------------------------- polar caps
def do_polar(ctx, case, rng):
    import sleplet

    S, L = sleplet.slepian, case["L"]
    t = rng.uniform(0.3, 1.4)
    for gap in (False, True):
        for v in [0, 0.0, -1e-9, -0.5, PI + 1e-9, 4.0, 7.0]:
            refuse(ctx, lambda: S.SlepianPolarCap(L, v, gap=gap), "polar", f"polar cap L={L} theta_max={v!r} gap={gap}")
        for m in range(-L - 2, L + 3):
            ctx.fresh_data()
            f = lambda: S.SlepianPolarCap(L, t, gap=gap, order=m)  # noqa: B023, E731
            if abs(m) < L:
                s = accept(ctx, f, "polar", f"polar cap L={L} order={m}")
                if s is not None:
                    ctx.check(s.order == m and s.eigenvalues.shape == (L - abs(m),), "polar", lambda: f"L={L} order={m}: order {s.order}, {s.eigenvalues.shape}")
                    _, emm = o.elm(L)
                    ctx.check((np.abs(s.eigenvectors[:, emm != m]) == 0).all(), "polar", f"L={L} order={m}: content in other orders")
                if abs(m) in (L - 1, 0):
                    ctx.nontrivial(f"order {m} of {L}")
            else:
                refuse(ctx, f, "polar", f"polar cap L={L} order={m}")
    s = accept(ctx, lambda: S.SlepianPolarCap(L, t), "polar", f"L={L} theta_max={t}")
    if s is not None:
        for v in [0.0]:
            refuse(ctx, lambda: setattr(s, "theta_max", v), "polar", f"theta_max := {v}")
            ctx.check(s.theta_max == t, "polar", f"refused theta_max := {v} left {s.theta_max}")
        for v in [L, -L, L + 3]:
            refuse(ctx, lambda: setattr(s, "order", v), "polar", f"order := {v}")
        for v in [[L, 0], [0, -L], [-L - 3, L - 1], [0, 1 - L, -L], [-L, L]]:  # the orders of several functions
            v = np.array(v)
            refuse(ctx, lambda: setattr(s, "order", v), "polar", f"order := {v}")
            refuse(ctx, lambda: S.SlepianPolarCap(L, t, order=v), "polar", f"polar cap L={L} order={v}")
    refuse(ctx, lambda: S.SlepianPolarCap(L, PI), "polar", "polar cap which is the whole sphere")
    refuse(ctx, lambda: S.SlepianLimitLatLon(L), "polar", "box which is the whole sphere")
    for kw in [{"theta_min": -0.1, "theta_max": 1.0}, {"theta_min": 0.1, "theta_max": 3.2}, {"phi_min": -0.1}, {"phi_max": 6.3}]:
        refuse(ctx, lambda: S.SlepianLimitLatLon(L, **kw), "polar", f"box {kw}")


# ---------------------------------------------------------------- harmonics
def do_harmonic(ctx, case, rng):
    L, F = case["L"], fc.fn("SphericalHarmonic")
    ell_, emm_ = o.elm(L)
    for ell in range(-2, L + 3):
        for m in {*range(-L - 1, L + 2)} if L < 5 else {-ell - 1, -ell, 0, ell, ell + 1, rng.randint(-L, L)}:
            good = 0 <= ell < L and abs(m) <= ell
            for how in ("given", "extra"):
                f = (lambda: F(L, ell=ell, m=m)) if how == "given" else (lambda: F(L, extra_args=[ell, m]))  # noqa: B023, E731
                msg = f"L={L} ell={ell} m={m} {how}"
                if good:
                    h = accept(ctx, f, "harmonic", msg)
                    if h is not None:
                        ctx.check(h.ell == ell and h.m == m, "harmonic", f"{msg}: became {h.ell}, {h.m}")
                        ctx.close(h.coefficients, ((ell_ == ell) & (emm_ == m)).astype(complex), 0, "harmonic", msg)
                    if abs(m) == ell or ell == L - 1:
                        ctx.nontrivial(msg)
                else:
                    refuse(ctx, f, "harmonic", msg)
    if L > 1:
        h = F(L, ell=L - 1, m=0)
        for k, v in [("ell", L), ("ell", -1), ("m", L), ("m", -L)]:
            refuse(ctx, lambda: setattr(h, k, v), "harmonic", f"L={L} {k} := {v}")
            ctx.check((h.ell, h.m) == (L - 1, 0), "harmonic", f"refused {k} := {v} left {h.ell}, {h.m}")
        for m in (L - 1, 1 - L):
            accept(ctx, lambda: setattr(h, "m", m), "harmonic", f"L={L} m := {m}")


# ---------------------------------------------------------------- wavelet scales
def n_scales(B, xlim, j_min):
    """Number of scales: the smallest J with B^J >= xlim, from j_min."""
    J = 0
    while B**J < xlim:
        J += 1
    return J - j_min + 1


def do_wavelets(ctx, case, rng):
    from sleplet import wavelet_methods as wm

    L = case["L"]
    for name in ["AxisymmetricWavelets", "Ridgelets", "SlepianWavelets"]:
        if name == "SlepianWavelets" and L > 6:
            continue
        x = L * L if name == "SlepianWavelets" else L
        kw = {"region": rg.region_of({"type": "polar", "theta_max": 0.8})} if name == "SlepianWavelets" else {}
        if name == "Ridgelets":
            kw = {"spin": 0}
        F = fc.fn(name)
        for B in rng.sample([2, 3, 4, 5], 2):
            j_min = rng.randint(0, 2)
            n = n_scales(B, x, j_min)
            if n < 0 or abs(math.log(max(x, 2)) / math.log(B) - round(math.log(max(x, 2)) / math.log(B))) < 1e-9 and x > 1:
                continue  # (log of an exact power: rounding of the logarithm decides)
            k = wm.create_kappas(x, B, j_min)
            ctx.check(k.shape == (n + 1, x), "wavelet-scale", lambda: f"{x} {B} {j_min}: {k.shape}, not {n + 1} scales")
            w = accept(ctx, lambda: F(L, B=B, j_min=j_min, **kw), "wavelet-scale", f"{name} L={L} B={B} j_min={j_min}")
            for j in range(-2, n + 3):
                for how in ("given", "extra"):
                    ex = [B, j_min, 0, j] if name == "Ridgelets" else [B, j_min, j]
                    kx = {k: v for k, v in kw.items() if k == "region"}
                    f = (lambda: F(L, B=B, j_min=j_min, j=j, **kw)) if how == "given" else (lambda: F(L, extra_args=ex, **kx))  # noqa: B023, E731
                    msg = f"{name} L={L} B={B} j_min={j_min} j={j} of {n} {how}"
                    if 0 <= j < n:
                        w = accept(ctx, f, "wavelet-scale", msg)
                        if w is not None:
                            ctx.check((w.B, w.j_min, w.j) == (B, j_min, j), "wavelet-scale", f"{msg}: became {w.B}, {w.j_min}, {w.j}")
                            ctx.same(w.coefficients, w.wavelets[j + 1], "wavelet-scale", f"{msg}: not the member chosen")
                    else:
                        refuse(ctx, f, "wavelet-scale", msg)
            if w is not None:
                for j in (-1, n, n + 1):
                    refuse(ctx, lambda: setattr(w, "j", j), "wavelet-scale", f"{name} L={L} B={B} j_min={j_min}: j := {j}")
        for B, j_min in [(2, -1), (3, -2), (1, 0), (0, 0), (-2, 0), (2, 30)]:
            refuse(ctx, lambda: F(L, B=B, j_min=j_min, **kw), "wavelet-scale", f"{name} L={L} B={B} j_min={j_min}")
        refuse(ctx, lambda: wm.create_kappas(x, 2, -1), "wavelet-scale", f"create_kappas({x}, 2, -1)")


# ---------------------------------------------------------------- extra arguments
def construct(name, args, L, kw):
    return fc.fn(name)(L, extra_args=args, **kw)


def do_extra(ctx, case, rng):
    earthlib.populate(ctx, case["sub"])
    L = rng.randint(5, 7)
    reg = rg.region_of({"type": rng.choice(["polar", "gap"]), "theta_max": rng.uniform(0.7, 1.3)})
    names = [n for n in EXTRA_ARGS if not n.startswith("Mesh")]
    for name in names:
        params, tr = EXTRA_ARGS[name]
        kw = {}
        if name in fc.FP:
            kw = {"region": reg}
        if name in fc.EARTH_FP:
            kw = {"region": rg.region_of({"type": "mask", "name": fc.EARTH_FP[name][0]})}
            if rng.random() < 0.5 or fc.fn(f"Slepian{'Africa' if 'africa' in str(kw) else 'SouthAmerica'}")(L, **kw).slepian.N < 3:
                # too small a region for wavelet coefficients: the refusals only
                check_extra(ctx, rng, name, params, tr, lambda a, kw=kw, name=name: construct(name, a, L, kw), refusals=True)
                continue
        check_extra(ctx, rng, name, params, tr, lambda a, kw=kw, name=name: construct(name, a, L, kw))


def check_extra(ctx, rng, name, params, tr, make, *, refusals=False):
    for n in range(0, 6):
        if n == len(params) and params:
            continue
        args = [1, 0, 1, 0, 1][:n]
        refuse(ctx, lambda: make(args), "extra-number", f"{name} extra_args={args}")
    if refusals:
        return
    if not params:
        f = accept(ctx, lambda: make(None), "extra-number", f"{name} without extra arguments")
        return
    for _ in range(2):
        args = [rng.choice(GOOD[p]) for p in params]
        if "ell" in params:
            args[1] = rng.choice([v for v in (-1, 0, 1) if abs(v) <= args[0]])
        if "j" in params:
            args[-1] = 0
        if name.startswith(("SlepianWaveletC", "MeshSlepianWaveletC")):
            args[:2] = [2, 0]
        if name.startswith("SlepianNoise") or name in ("NoiseEarth", "MeshNoiseField", "MeshSlepianNoiseField"):
            args = [rng.choice([7, -3, 0, 12])]
        f = accept(ctx, lambda: make(args), "extra-meaning", f"{name} extra_args={args}")
        if f is None:
            continue
        want = [tr(a) for a in args]
        got = [getattr(f, p) for p in params]
        ctx.check(all(abs(g - w) <= 1e-12 * abs(w) for g, w in zip(got, want)), "extra-meaning", f"{name} extra_args={args}: {params} = {got}, not {want}")
        ctx.nontrivial(f"{name} {args}")


# ---------------------------------------------------------------- ranks and decompositions
def do_decomposition(ctx, case, rng):
    from sleplet import slepian_methods as sm

    L = case["L"]
    reg = {"type": rng.choice(["polar", "gap", "box"]), "theta_max": rng.uniform(0.8, 1.4), "theta_min": 0.2, "phi_min": 0.5, "phi_max": 4.0, "L": L}
    if reg["type"] != "box":
        reg = {k: reg[k] for k in ("type", "theta_max", "L")}
    s = rg.build(reg)
    r = rg.region_of(reg)
    flm = np.random.default_rng(case["sub"]).standard_normal(L * L) + 0j
    f = field_of(flm, L)
    msg = f"{rg.describe(reg)} L={L}"
    refuse(ctx, lambda: sm.slepian_forward(L, s), "decomposition", f"{msg}: no data")
    refuse(ctx, lambda: sm.slepian_forward(L, s, mask=np.ones(f.shape)), "decomposition", f"{msg}: mask without data")
    n = s.eigenvectors.shape[0]
    for kw in ({"flm": flm}, {"f": f}, {"f": f, "mask": s.mask.astype(float)}):
        for k in {0, 1, s.N, min(n, L * L)}:
            c = accept(ctx, lambda: sm.slepian_forward(L, s, n_coeffs=k, **kw), "decomposition", f"{msg}: {sorted(kw)} n_coeffs={k}")
            if c is not None:
                ctx.check(c.shape == (k,), "decomposition", f"{msg}: asked for {k} coefficients, got {c.shape}")
        for k in (L * L + 1, L * L + 5, -1, -3):
            refuse(ctx, lambda: sm.slepian_forward(L, s, n_coeffs=k, **kw), "decomposition", f"{msg}: {sorted(kw)} n_coeffs={k}")
    from sleplet.slepian._slepian_decomposition import SlepianDecomposition as SD

    sd = SD(L, s, flm=flm)
    for k in (-1, -L * L, L * L, L * L + 7):
        refuse(ctx, lambda: sd.decompose(k), "decomposition", f"{msg}: rank {k}")
    for k in (0, s.N - 1, n - 1):
        if k >= 0:
            c = accept(ctx, lambda: sd.decompose(k), "decomposition", f"{msg}: rank {k}")
            if c is not None:
                ctx.close(c, np.vdot(s.eigenvectors[k], flm), 1e-10, "decomposition", f"{msg}: rank {k}")
    # Slepian functions by rank
    if s.N == 0:
        return  # (no function is saved: the finding of C03)
    F = fc.fn("Slepian")
    for k in {0, s.N - 1}:
        for kw in ({"rank": k}, {"extra_args": [k]}):
            w = accept(ctx, lambda: F(L, region=r, **kw), "rank", f"{msg}: Slepian {kw}")
            if w is not None:
                ctx.check(w.rank == k, "rank", f"{msg}: {kw} became {w.rank}")
                ctx.close(w.coefficients, np.eye(max(s.N, 1))[k][: s.N], 1e-9, "rank", f"{msg}: Slepian {kw}")
    for k in (-1, -5, L * L, L * L + 1, L * L + 40):
        for kw in ({"rank": k}, {"extra_args": [k]}):
            refuse(ctx, lambda: F(L, region=r, **kw), "rank", f"{msg}: Slepian {kw}")
    w = F(L, region=r)
    refuse(ctx, lambda: setattr(w, "rank", -1), "rank", f"{msg}: rank := -1")
    refuse(ctx, lambda: w.rotate(0.1, 0.2), "rank", f"{msg}: rotation of a Slepian function")


def field_of(flm, L):
    import pyssht

    return pyssht.inverse(flm, L, Method="MWSS")


# ---------------------------------------------------------------- masks
def do_masks(ctx, case, rng):
    import sleplet

    earthlib.populate(ctx, case["sub"])
    d = os.environ["XDG_DATA_HOME"]
    L = rng.randint(3, 6)
    for name in ["atlantis", "Africa", "africa2", "south", "america", "SOUTH_AMERICA", "africa_L4", "south-america"]:
        refuse(ctx, lambda: sleplet.slepian.SlepianArbitrary(L, name), "mask", f"unknown mask {name!r}")
        refuse(ctx, lambda: fc.fn("Gaussian")(L, region=sleplet.slepian.Region(mask_name=name)), "mask", f"function of unknown mask {name!r}")
    refuse(ctx, lambda: sleplet.slepian.SlepianArbitrary(L, ""), "mask", "no mask name")
    from sleplet import _mask_methods as mm

    for k, shape in enumerate([(2, 3), (2 * L + 1, 4 * L - 1), (2 * L, 4 * L), (L + 1, 2 * L), (4 * L, 2 * L + 1), (4 * L * (2 * L + 1),), ()]):
        np.save(f"{d}/slepian_masks_bad{k}_L{2 * L}.npy", np.ones(shape))
        refuse(ctx, lambda: sleplet.slepian.SlepianArbitrary(L, f"bad{k}"), "mask", f"mask of shape {shape} for L={2 * L}")
        refuse(ctx, lambda: mm.create_mask_region(2 * L, sleplet.slepian.Region(mask_name=f"bad{k}")), "mask", f"mask of shape {shape}")
    np.save(f"{d}/slepian_masks_good_L{2 * L}.npy", np.ones((2 * L + 1, 4 * L)))
    s = accept(ctx, lambda: sleplet.slepian.SlepianArbitrary(L, "good"), "mask", f"mask of the right shape for L={2 * L}")
    if s is not None:
        ctx.check(s.N == L * L, "mask", f"everything: N={s.N}")


# ---------------------------------------------------------------- meshes
def do_mesh(ctx, case, rng):
    import sleplet

    M = sleplet.meshes
    name, nb = case["name"], case["nb"]
    for bad in ["", "cow", "Cube", "meshes_regions_cube", "../cube", "cube.toml"]:
        refuse(ctx, lambda: M.Mesh(bad), "mesh", f"mesh {bad!r}")
    m = ml.mesh(name, nb)
    nv = len(m.vertices)
    for k in (0, -1, -8, nv, nv + 1, 3 * nv):
        refuse(ctx, lambda: M.Mesh(name, number_basis_functions=k), "mesh", f"{name}: {k} basis functions of {nv} vertices")
    for k in (1, nv - 1) if nv < 300 else (1,):
        w = accept(ctx, lambda: M.Mesh(name, number_basis_functions=k), "mesh", f"{name}: {k} basis functions of {nv} vertices")
        if w is not None:
            ctx.check(np.shape(w.basis_functions) == (k, nv) and np.shape(w.mesh_eigenvalues) == (k,) and w.number_basis_functions == k, "mesh", lambda: f"{name}: {np.shape(w.basis_functions)} for {k}")
    s = M.MeshSlepian(m)
    n = s.N
    for cls, top in (("MeshBasisFunctions", nb), ("MeshSlepianFunctions", n)):
        F = fc.meshfn(cls)
        for k in (-1, -7, nb + 1, nb + 20) + ((nb,) if cls == "MeshBasisFunctions" else ()):
            for kw in ({"rank": k}, {"extra_args": [k]}):
                refuse(ctx, lambda: F(m, **kw), "mesh", f"{name} b={nb} {cls} {kw}")
        for k in {0, top - 1}:
            if k >= 0 and top:
                for kw in ({"rank": k}, {"extra_args": [k]}):
                    f = accept(ctx, lambda: F(m, **kw), "mesh", f"{name} b={nb} {cls} {kw}")
                    if f is not None:
                        ctx.check(f.rank == k, "mesh", f"{cls} {kw} became {f.rank}")
    for cls in ("MeshSlepianWavelets",):
        F = fc.meshfn(cls)
        for B in (2, 3):
            j_min = rng.randint(0, 2)
            ns = n_scales(B, nb, j_min)
            if B ** round(math.log(nb) / math.log(B)) == nb:
                continue
            for j in (-1, 0, ns - 1, ns, ns + 1):
                for kw in ({"B": B, "j_min": j_min, "j": j}, {"extra_args": [B, j_min, j]}):
                    f = lambda: F(m, **kw)  # noqa: B023, E731
                    if 0 <= j < ns:
                        w = accept(ctx, f, "wavelet-scale", f"{name} b={nb} {cls} {kw} of {ns}")
                        if w is not None:
                            ctx.check((w.B, w.j_min, w.j) == (B, j_min, j), "wavelet-scale", f"{cls} {kw}")
                    else:
                        refuse(ctx, f, "wavelet-scale", f"{name} b={nb} {cls} {kw} of {ns}")
        refuse(ctx, lambda: F(m, B=2, j_min=-1), "wavelet-scale", f"{cls} j_min=-1")
    sm = sleplet.slepian_methods
    refuse(ctx, lambda: sm.slepian_mesh_forward(s), "decomposition", f"{name}: no data")
    refuse(ctx, lambda: sm.slepian_mesh_forward(s, mask=True), "decomposition", f"{name}: mask without data")
    c = np.random.default_rng(case["sub"]).standard_normal(nb)
    for k in (nb + 1, nb + 9, -1):
        refuse(ctx, lambda: sm.slepian_mesh_forward(s, u_i=c, n_coeffs=k), "decomposition", f"{name} b={nb}: n_coeffs={k}")
    for k in (0, n, nb):
        if len(s.slepian_functions) >= k:
            accept(ctx, lambda: sm.slepian_mesh_forward(s, u_i=c, n_coeffs=k), "decomposition", f"{name} b={nb}: n_coeffs={k}")
    for cls in [x for x in EXTRA_ARGS if x.startswith("Mesh")]:
        if cls in ("MeshSlepianWaveletCoefficients", "MeshSlepianFunctions") and n < 2:
            continue  # no wavelets but the scaling function
        params, tr = EXTRA_ARGS[cls]
        check_extra(ctx, rng, cls, params, tr, lambda a, cls=cls: fc.meshfn(cls)(m, extra_args=a))


# ---------------------------------------------------------------- names on the command line
def cli(main, argv):
    """Exit code of a command that must not get as far as computing."""
    old, err, out = sys.argv, sys.stderr, sys.stdout
    sys.argv = argv
    try:
        with contextlib.redirect_stderr(io.StringIO()) as e, contextlib.redirect_stdout(io.StringIO()):
            main()
        return None, e.getvalue()
    except SystemExit as x:
        return x.code, e.getvalue()
    finally:
        sys.argv, sys.stderr, sys.stdout = old, err, out


def do_names(ctx, case, rng):
    import plotly.io as pio

    from sleplet._scripts import plotting_on_mesh as pm
    from sleplet._scripts import plotting_on_sphere as ps

    shown, old = [], pio.show
    pio.show = lambda *a, **k: shown.append(k)
    try:
        for argv in [["sphere"], ["sphere", "gauss"], ["sphere", "Gaussian"], ["sphere", ""], ["sphere", "gaussian", "extra"], ["sphere", "flm"],
                     ["sphere", "gaussian", "-L", "x"], ["sphere", "gaussian", "-L", "4.5"], ["sphere", "gaussian", "-e", "a"], ["sphere", "gaussian", "-e"],
                     ["sphere", "gaussian", "-t", "phase"], ["sphere", "gaussian", "-m", "shift"], ["sphere", "gaussian", "-c", "moon"],
                     ["sphere", "gaussian", "-c", "gaussian"], ["sphere", "gaussian", "-p", "asia"], ["sphere", "gaussian", "-n", "loud"],
                     ["sphere", "gaussian", "-a", "x"], ["sphere", "gaussian", "-s", "1.5"], ["sphere", "gaussian", "--nope"], ["sphere", "mesh_field"]]:
            code, text = cli(ps.main, argv)
            ctx.check(code not in (None, 0) and "usage" in text, "names", f"{argv}: ended with {code} {text[-100:]}")
            ctx.nontrivial(" ".join(argv))
        for argv in [["mesh"], ["mesh", "cow"], ["mesh", "Cube"], ["mesh", "cube", "-m", "gaussian"], ["mesh", "cube", "-m", "mesh_field"], ["mesh", "cube", "-n", "x"],
                     ["mesh", "cube", "-e", "x"], ["mesh", "cube", "--nope"], ["mesh", "cube", "-m", "Field"]]:
            code, text = cli(pm.main, argv)
            ctx.check(code not in (None, 0) and "usage" in text, "names", f"{argv}: ended with {code} {text[-100:]}")
            ctx.nontrivial(" ".join(argv))
        for main, argv in [(ps.main, ["sphere", "--version"]), (pm.main, ["mesh", "-v"]), (ps.main, ["sphere", "-h"]), (pm.main, ["mesh", "-h"])]:
            code, _ = cli(main, argv)
            ctx.check(code in (0, None), "names", f"{argv}: ended with {code}")
        ctx.check(not shown, "names", f"{len(shown)} plots shown for invalid commands")
        # parameters that the functions refuse end with an error and without a plot
        for argv in [["gaussian", "-L", "5", "-e", "1", "2"], ["dirac_delta", "-L", "5", "-e", "1"], ["spherical_harmonic", "-L", "4", "-e", "4", "0"],
                     ["spherical_harmonic", "-L", "4", "-e", "2", "3"], ["axisymmetric_wavelets", "-L", "6", "-e", "2", "0", "9"],
                     ["axisymmetric_wavelets", "-L", "6", "-e", "2", "-1", "0"]]:
            refuse(ctx, lambda: cli(ps.main, ["sphere", *argv]), "names", " ".join(argv))
        ctx.check(not shown, "names", f"{len(shown)} plots shown for refused parameters")
        for argv in [["gaussian", "-L", "5", "-e", "1"], ["spherical_harmonic", "-L", "4", "-e", "3", "-3"], ["identity", "-L", "3"]]:
            n = len(shown)
            accept(ctx, lambda: cli(ps.main, ["sphere", *argv]), "names", " ".join(argv))
            ctx.check(len(shown) == n + 1, "names", f"{argv}: {len(shown) - n} plots")
    finally:
        pio.show = old
    for v, bad in [(ps.valid_plotting, ["x", "", "Gaussian", "mesh_field"]), (ps.valid_maps, ["gaussian", "africa", "x", ""]), (pm.valid_meshes, ["x", "", "Cube"]),
                   (pm.valid_methods, ["x", "mesh_field", "", "Field"])]:
        for b in bad:
            refuse(ctx, lambda: v(b), "names", f"{v.__name__}({b!r})")
    for v, good in [(ps.valid_plotting, ["gaussian", "wmap", "slepian_noise_africa"]), (ps.valid_maps, ["earth", "south_america", "wmap"]), (pm.valid_meshes, ml.NAMES),
                    (pm.valid_methods, ["field", "basis_functions", "slepian_wavelet_coefficients"])]:
        for g in good:
            r = accept(ctx, lambda: v(g), "names", f"{v.__name__}({g!r})")
            ctx.check(r == g, "names", f"{v.__name__}({g!r}) gave {r!r}")


# ---------------------------------------------------------------- functions bound to a continent
def do_continents(ctx, case, rng):
    import sleplet

    earthlib.populate(ctx, case["sub"])
    L = rng.randint(5, 6)
    R = sleplet.slepian.Region
    rg.write_mask({"type": "mask", "name": "island", "shape": "cap", "mseed": case["sub"], "L": L})
    others = [R(theta_max=0.9), R(theta_max=0.5, gap=True), R(theta_min=0.4, theta_max=1.9, phi_min=0.5, phi_max=4), R(mask_name="island")]
    for name, (where, _) in sorted(fc.EARTH_FP.items()):
        other = "south_america" if where == "africa" else "africa"
        F = fc.fn(name)
        N = sleplet.slepian.SlepianArbitrary(L, where).N
        f = accept(ctx, lambda: F(L, region=R(mask_name=where)), "continent", f"{name} on {where}") if N else None
        if f is not None:
            ctx.check(f.region.mask_name == where, "continent", f"{name}: region {f.region}")
        for r in [R(mask_name=other), rng.choice(others)]:
            refuse(ctx, lambda: F(L, region=r), "continent", f"{name} on {r}")
