"""C20: Earth and WMAP maps, continent masks and smoothing follow their data."""

import os
import pathlib
import random

import numpy as np

import earthlib
import funcs as fc
import oracle as o

RULE = "a map is non-trivial when it has content above degree 1 (a continent: some but not all of its disc is land); distinct by data set, band-limit, smoothing and function"
REQUIRED = {"earth": 30, "smoothing": 20, "wmap": 12, "wmap-draw": 6, "truncation": 16, "rotated": 12, "continent": 20, "mask": 12, "mask-found": 6, "slepian-map": 4,
            "wavelet-map": 8, "noise-map": 4, "own-region": 8, "beyond-data": 3, "data-untouched": 12}


def cases(tier, rng):
    k = 1 if tier == "quick" else 25
    out = []
    for _ in range(3 * k):
        out.append({"kind": "earth", "sub": rng.randrange(10**6), "n": 10})
        out.append({"kind": "wmap", "sub": rng.randrange(10**6)})
        out.append({"kind": "continents", "sub": rng.randrange(10**6), "w": 2})
        out.append({"kind": "flat", "sub": rng.randrange(10**6), "w": 1})
        out.append({"kind": "wavelets", "sub": rng.randrange(10**6), "w": 1})
    for _ in range(k):
        out.append({"kind": "earth", "sub": rng.randrange(10**6), "n": 5, "size": rng.choice([90, 190, 200]), "w": 4})
        out.append({"kind": "wmap", "sub": rng.randrange(10**6), "L": rng.randint(51, 150), "w": 3})
    for i in range(4 * k):
        out.append({"kind": "slepian", "sub": rng.randrange(10**6), "name": ["africa", "south_america"][i % 2], "w": 5})
    out.append({"kind": "refusals", "sub": rng.randrange(10**6), "w": 4})
    return out


CLASS = {"africa": "Africa", "south_america": "SouthAmerica"}


def run_case(ctx, case):
    rng = random.Random(case["sub"])
    # the size of the file is not the band-limit
    size = case.get("size") or rng.choice([24, 31, 40])
    unit = 10.0 ** random.Random(case["sub"] + 1).choice([0, 0, 3, 9, -6, -9, -12, -15])  # metres, kilometres, squared kelvins...
    flm, cl = earthlib.populate(ctx, case["sub"], size, unit)
    if rng.random() < 0.5:  # only the non-negative orders of the file count
        import scipy.io as sio

        ell, emm = o.elm(size)
        g = np.random.default_rng(case["sub"])
        flm = np.where(emm < 0, g.standard_normal(size * size) * 1e3 * unit, flm)
        sio.savemat(pathlib.Path(os.environ["XDG_DATA_HOME"]) / earthlib.TOPO, {"flm": flm[:, None]})
    before = data_state()
    globals()[f"do_{case['kind']}"](ctx, case, rng, flm, cl, size)
    after = data_state()
    ctx.check(all(after.get(k) == v for k, v in before.items()), "data-untouched", "a data file was changed")


def data_state():
    d = pathlib.Path(os.environ["XDG_DATA_HOME"])
    return {f.name: f.read_bytes() for f in d.iterdir() if f.suffix == ".mat"}


def smoothed(f, L, s):
    if s is None:
        return f
    ell, _ = o.elm(L)
    return f * np.exp(-(ell * np.pi / (s * L)) ** 2)


def do_earth(ctx, case, rng, flm, cl, size):
    E = fc.fn("Earth")
    for i in range(case["n"]):
        L = [1, 2, size][i] if i < 3 else rng.randint(3, size)
        want = earthlib.full_earth(flm, L)
        sc = np.abs(want).max()
        f = E(L)
        ctx.close(f.coefficients, want, 1e-13 * sc, "earth", f"Earth({L}) of a file with {size}**2 coefficients")
        ctx.check(f.reality and f.spin == 0, "earth", f"Earth({L}) flags")
        ctx.close(f.coefficients, o.hermitian(f.coefficients, L), 1e-13 * sc, "earth", f"Earth({L}) is real")
        for s in rng.sample([1, 2, 3, 5, 10, 50], 2):
            ctx.close(E(L, smoothing=s).coefficients, smoothed(want, L, s), 1e-12 * sc, "smoothing", f"Earth({L}, smoothing={s})")
        ctx.close(E(L).coefficients, want, 1e-13 * sc, "earth", f"Earth({L}) after the smoothed one")
        n = rng.randint(1, L)
        ctx.close(E(n).coefficients, f.coefficients[:n * n], 1e-13 * sc, "truncation", f"Earth({n}) and Earth({L})")
        if L > 2:
            ctx.nontrivial(f"earth {case['sub']} {size} {L}")
    ctx.raises(lambda: E(size + 1), "beyond-data", f"Earth({size + 1}) of a file with {size}**2 coefficients")
    ctx.sample(f"Earth of data set {case['sub']} ({size}**2 coefficients) at {case['n']} band-limits")


def do_wmap(ctx, case, rng, flm, cl, size):
    W = fc.fn("Wmap")
    L = case.get("L") or rng.randint(30, 50)
    ell, emm = o.elm(L)
    f = W(L).coefficients
    sig = np.zeros(L * L)
    sig[4:] = np.sqrt(2 * np.pi / (ell[4:] * (ell[4:] + 1)) * cl[ell[4:] - 2])
    sc = np.abs(f).max()
    ctx.check(f.shape == (L * L,) and (f[:4] == 0).all(), "wmap", "monopole and dipole")
    ctx.close(f, o.hermitian(f, L), 1e-13 * sc, "wmap", "the map is real")
    z = f[4:] / sig[4:]
    z0, zp = z[emm[4:] == 0], z[emm[4:] > 0] * np.sqrt(2)
    for v, what in ((z0.real, "order 0"), (zp.real, "real parts"), (zp.imag, "imaginary parts")):
        n = len(v)
        ctx.check(abs((v**2).mean() - 1) < 5 * np.sqrt(2 / n) and abs(v.mean()) < 5 / np.sqrt(n), "wmap", f"L={L} {what}: variance {(v**2).mean()} mean {v.mean()} of {n}")
    ctx.check(abs(np.mean(zp.real * zp.imag)) < 5 / np.sqrt(len(zp)), "wmap", "real and imaginary parts are correlated")
    # a fixed draw
    g = np.random.default_rng(30)
    want = np.zeros(L * L, complex)
    for l in range(2, L):
        want[l * l + l] = sig[l * l] * g.standard_normal()
        for m in range(1, l + 1):
            a, b = g.standard_normal(), g.standard_normal()
            want[l * l + l + m] = sig[l * l] / np.sqrt(2) * (a + 1j * b)
            want[l * l + l - m] = (-1) ** m * np.conj(want[l * l + l + m])
    ctx.close(f, want, 1e-12 * sc, "wmap-draw", f"Wmap({L}) is the draw of seed 30")
    np.random.seed(rng.randrange(1000))
    ctx.same(W(L).coefficients, f, "wmap-draw", f"Wmap({L}) again")
    for n in (1, 2, 3, rng.randint(4, L)):
        ctx.close(W(n).coefficients, f[:n * n], 1e-13 * sc, "truncation", f"Wmap({n}) and Wmap({L})")
    # another spectrum scales the same draw
    import scipy.io as sio

    q = np.random.default_rng(case["sub"]).uniform(0.1, 4, len(cl))
    q[rng.randrange(5)] = 0
    p = pathlib.Path(os.environ["XDG_DATA_HOME"]) / earthlib.CL
    keep = p.read_bytes()
    sio.savemat(p, {"cl": (cl * q)[:, None]})
    ratio = np.zeros(L * L)
    ratio[4:] = np.sqrt(q[ell[4:] - 2])
    ctx.close(W(L).coefficients, f * ratio, 1e-12 * sc, "wmap", "another spectrum")
    p.write_bytes(keep)
    ctx.check(W(L).reality and W(L).spin == 0, "wmap", "flags")
    ctx.raises(lambda: W(len(cl) + 3), "beyond-data", "Wmap beyond the spectrum of the file")
    ctx.nontrivial(f"wmap {case['sub']} {L}")


# ---------------------------------------------------------------- continents
def turned(flm, L, name, R):
    """The map with the continent at the pole, at the samples of the resolution, from the definition."""
    import c09

    T, P = np.meshgrid(*o.grid(R), indexing="ij")
    x = np.stack([(np.sin(T) * np.cos(P)).ravel(), (np.sin(T) * np.sin(P)).ravel(), np.cos(T).ravel()])
    y = c09.rot(*np.deg2rad(earthlib.ANGLES[name])).T @ x
    v = o.ylm(L, np.arccos(np.clip(y[2], -1, 1)), np.arctan2(y[1], y[0])) @ flm
    return v.real.reshape(T.shape), T


def land(flm, L, name):
    """Which samples are land, and which cannot be told because the height is zero to rounding."""
    f, T = turned(flm, L, name, L)
    r = np.deg2rad(earthlib.RANGES[name])
    return (T <= r) & (f >= 0), (np.abs(f) < 1e-9 * np.abs(f).max()) | (np.abs(T - r) < 1e-9), f


def analyse(g, L):
    import pyssht

    return pyssht.forward(np.ascontiguousarray(g), L, Method="MWSS", Reality=True)


def continent_of(ctx, flm, L, name, s=None, mask=None):
    """The coefficients of the continent, or None if a pixel cannot be told."""
    full = earthlib.full_earth(flm, L)
    m, open_, _ = land(full, L, name)
    if mask is not None:
        m, open_ = np.asarray(mask).astype(bool), np.zeros(1, bool)
    if open_.any():
        ctx.count("obs:undecided pixels")
        return None
    g, _ = turned(smoothed(full, L, s), L, name, L)
    return analyse(np.where(m, g, 0), L)


def do_continents(ctx, case, rng, flm, cl, size):
    import sleplet
    import sleplet._mask_methods as mm

    data = pathlib.Path(os.environ["XDG_DATA_HOME"])
    for name in CLASS:
        C = fc.fn(CLASS[name])
        for L in (rng.randint(5, 12), rng.randint(13, 20), size):
            full = earthlib.full_earth(flm, L)
            want, open_, f = land(full, L, name)
            rot = getattr(sleplet.harmonic_methods, f"rotate_earth_to_{name}")(full.copy(), L)
            ctx.close(o.synthesise(rot, L), f, 1e-9 * np.abs(f).max(), "rotated", f"rotate_earth_to_{name} L={L}")
            for order in rng.sample(["map", "mask"], 2):
                if order == "mask":
                    m = np.asarray(mm.create_mask_region(L, sleplet.slepian.Region(mask_name=name)))
                    ctx.check(m.shape == want.shape and ((m.astype(bool) == want) | open_).all(), "mask", lambda: f"{name} L={L}: {int((m.astype(bool) != want).sum())} pixels")
                else:
                    s = rng.choice([None, 1, 2, 4])
                    w = continent_of(ctx, flm, L, name, s)
                    got = C(L, smoothing=s)
                    if w is not None:
                        ctx.close(got.coefficients, w, 1e-9 * np.abs(f).max(), "continent", f"{CLASS[name]}({L}, smoothing={s})")
                    ctx.check(got.reality and got.spin == 0, "continent", f"{CLASS[name]}({L}) flags")
            p = data / f"slepian_masks_{name}_L{L}.npy"
            ctx.check(p.exists() and ((np.load(p).astype(bool) == want) | open_).all(), "mask-found", f"the saved mask of {name} L={L}")
            got = C(L)
            w = continent_of(ctx, flm, L, name)
            if w is not None:
                ctx.close(got.coefficients, w, 1e-9 * np.abs(f).max(), "continent", f"{CLASS[name]}({L}) with the mask found")
            if want.any():
                ctx.nontrivial(f"{name} {case['sub']} {L}: {int(want.sum())} pixels of land")
            # a mask that is found is the one used, for the map as well
            other = np.random.default_rng(case["sub"]).random(want.shape) < 0.5
            np.save(p, other)
            ctx.close(C(L).coefficients, continent_of(ctx, flm, L, name, None, other), 1e-9 * np.abs(f).max(), "mask-found", f"{CLASS[name]}({L}) with a mask provided")
            ctx.same(np.asarray(mm.create_mask_region(L, sleplet.slepian.Region(mask_name=name))).astype(bool), other, "mask-found", f"{name} L={L} provided")
            p.unlink()
    ctx.sample(f"continents of data set {case['sub']}")


def do_flat(ctx, case, rng, flm, cl, size):
    """A world of one height: sea level is land."""
    import scipy.io as sio

    import sleplet
    import sleplet._mask_methods as mm

    data = pathlib.Path(os.environ["XDG_DATA_HOME"])
    published = (data / earthlib.TOPO).read_bytes()
    for height in (0.0, 250.0, -250.0):
        world = np.zeros(size * size, complex)
        world[0] = height
        sio.savemat(data / earthlib.TOPO, {"flm": world[:, None]})
        for name in CLASS:
            L = rng.randint(5, min(16, size))
            T, _ = np.meshgrid(*o.grid(L), indexing="ij")
            r = np.deg2rad(earthlib.RANGES[name])
            want, open_ = (T <= r) & (height >= 0), np.abs(T - r) < 1e-9
            m = np.asarray(mm.create_mask_region(L, sleplet.slepian.Region(mask_name=name))).astype(bool)
            ctx.check(m.shape == want.shape and ((m == want) | open_).all(), "mask", lambda: f"{name} L={L} in a world at height {height}: {int((m != want).sum())} pixels")
            got = fc.fn(CLASS[name])(L)
            if not open_.any():
                ctx.close(got.coefficients, analyse(np.where(want, height / np.sqrt(4 * np.pi), 0), L), 1e-9 * abs(height) + 1e-300, "continent", f"{CLASS[name]}({L}) in a world at height {height}")
            ctx.nontrivial(f"{name} {L} flat {height}")
            (data / f"slepian_masks_{name}_L{L}.npy").unlink(missing_ok=True)
    (data / earthlib.TOPO).write_bytes(published)


def do_wavelets(ctx, case, rng, flm, cl, size):
    import sleplet

    for name, src in (("Earth", "Earth"), ("Africa", "Africa"), ("SouthAmerica", "SouthAmerica")):
        L = rng.randint(5, 14)
        B, j_min, s = rng.choice([2, 3]), rng.choice([0, 1]), rng.choice([None, 1, 3])
        ell, _ = o.elm(L)
        kap = sleplet.wavelet_methods.create_kappas(L, B, j_min)
        f = earthlib.full_earth(flm, L)
        f = smoothed(f, L, s) if name == "Earth" else continent_of(ctx, flm, L, {v: k for k, v in CLASS.items()}[name], s)
        if f is None:
            continue
        c = fc.fn("AxisymmetricWaveletCoefficients" + name)(L, B=B, j_min=j_min, smoothing=s)
        sc = max(np.abs(earthlib.full_earth(flm, L)).max(), 1)
        ctx.close(np.asarray(c.wavelet_coefficients), kap[:, ell] * f[None], 1e-9 * sc, "wavelet-map", f"wavelet coefficients of {name} L={L} B={B} j_min={j_min} smoothing={s}")
        j = rng.randrange(len(kap) - 1)
        c = fc.fn("AxisymmetricWaveletCoefficients" + name)(L, B=B, j_min=j_min, j=j, smoothing=s)
        ctx.close(c.coefficients, kap[j + 1, ell] * f, 1e-9 * sc, "wavelet-map", f"scale {j} of {name} L={L} B={B} j_min={j_min} smoothing={s}")
        if name == "Earth":
            noise = fc.fn("NoiseEarth")(L, SNR=4, smoothing=s).coefficients
            both = fc.fn("Earth")(L, noise=4, smoothing=s).coefficients
            ctx.close(both - f, noise, 1e-9 * sc, "noise-map", f"NoiseEarth({L}, smoothing={s})")
            p = (np.abs(f) ** 2).sum() / (np.abs(noise) ** 2).sum()
            ctx.check(abs(10 * np.log10(p) - 4) < 10 * np.log10(1 + 5 * np.sqrt(2) / L) + 1.5, "noise-map", f"NoiseEarth({L}, smoothing={s}): SNR {10 * np.log10(p)} instead of 4")
        ctx.nontrivial(f"wavelets {name} {L} {B} {j_min} {s}")


def do_slepian(ctx, case, rng, flm, cl, size):
    import sleplet

    name = case["name"]
    C = CLASS[name]
    L = rng.randint(5, 8)
    by_env = rng.random() < 0.5
    if by_env:
        os.environ["SLEPIAN_MASK"] = name
    reg = {} if by_env else {"region": sleplet.slepian.Region(mask_name=name)}
    # the region of the Slepian functions is the continent at the resolution they are integrated with
    solved = sleplet.slepian.SlepianArbitrary(L, name)
    mask = np.asarray(solved.mask)
    R = (mask.shape[0] - 1)
    want, open_, _ = land(earthlib.full_earth(flm, R), R, name) if R <= size else (None, None, None)
    if want is not None:
        ctx.check(((mask.astype(bool) == want) | open_).all(), "mask", lambda: f"Slepian region {name} L={L}: {int((mask.astype(bool) != want).sum())} pixels")
    S, N = np.asarray(solved.eigenvectors), solved.N
    sc = np.abs(earthlib.full_earth(flm, L)).max()
    for s in (None, rng.choice([1, 2, 3])):
        f = continent_of(ctx, flm, L, name, s)
        if f is None:
            continue
        a = fc.fn("Slepian" + C)(L, smoothing=s, **reg)
        fp = S[:N].conj() @ f
        ctx.close(a.coefficients, fp, 1e-9 * sc, "slepian-map", f"Slepian{C}({L}, smoothing={s}) N={N}")
        if N == 0:
            continue
        noise = fc.fn("SlepianNoise" + C)(L, SNR=2, smoothing=s, **reg).coefficients
        both = fc.fn("Slepian" + C)(L, noise=2, smoothing=s, **reg).coefficients
        ctx.close(both - fp, noise, 1e-9 * sc, "noise-map", f"SlepianNoise{C}({L}, smoothing={s})")
        ctx.check(np.abs(noise).max() > 0 or np.abs(fp).max() == 0, "noise-map", f"SlepianNoise{C}({L}, smoothing={s}) is empty")
        w = fc.fn("SlepianWaveletCoefficients" + C)(L, B=2, j_min=1, smoothing=s, **reg)
        kap = sleplet.wavelet_methods.create_kappas(L * L, 2, 1)[:, :N]
        kap = kap[kap.any(axis=1)]
        got = np.asarray(w.wavelet_coefficients)
        ctx.close(got[:len(kap)], (kap * fp.conj()[None])[:len(got)], 1e-9 * sc, "wavelet-map", f"SlepianWaveletCoefficients{C}({L}, smoothing={s})")
        ctx.close(np.asarray(w.coefficients), got[0], 0, "wavelet-map", "scaling coefficients are the first")
        ctx.nontrivial(f"slepian {name} {case['sub']} {L} {s} N={N}")
    ctx.sample(f"Slepian{C} L={L} N={N}")


def do_refusals(ctx, case, rng, flm, cl, size):
    """Each continent's functions accept their own region only."""
    import sleplet

    L = 5
    for name, other in (("africa", "south_america"), ("south_america", "africa")):
        for pre in ("Slepian", "SlepianNoise", "SlepianWaveletCoefficients"):
            F = fc.fn(pre + CLASS[name])
            kw = {"B": 2, "j_min": 1} if "Wavelet" in pre else {}
            ctx.raises(lambda: F(L, region=sleplet.slepian.Region(mask_name=other), **kw), "own-region", f"{pre}{CLASS[name]} in {other}")
            ctx.raises(lambda: F(L, region=sleplet.slepian.Region(theta_max=np.deg2rad(50)), **kw), "own-region", f"{pre}{CLASS[name]} in a polar cap")
        F = fc.fn("Slepian" + CLASS[name])
        ctx.accepts(lambda: F(L, region=sleplet.slepian.Region(mask_name=name)), "own-region", f"Slepian{CLASS[name]} in {name}")
    for cls in ("Earth", "Wmap", "Africa", "SouthAmerica"):
        ctx.raises(lambda: fc.fn(cls)(L, extra_args=[1]), "own-region", f"{cls} with an extra argument")
    ctx.nontrivial("refusals")
