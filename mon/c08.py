"""C08: wavelets tile the spectrum and reconstruct every signal exactly."""

import numpy as np

import core
import meshlib as ml
import oracle as o
import regions as rg

RULE = "a transform is non-trivial when the tiling has at least two scales and the signal is not zero; distinct by family, dimension, B, j_min, Shannon number and kind of signal"
REQUIRED = {"tiling": 20, "axisymmetric-roundtrip": 20, "slepian-roundtrip": 20, "mesh-classes": 2, "sphere-classes": 4, "dropped-scales": 20}

KINDS = ["complex", "real", "zero", "first", "last", "sparse", "one-scale", "huge", "tiny", "cancelling", "real-zonal"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for _ in range(25 if q else 200):
        out.append({"kind": "tiling", "n": rng.choice([2, 3, 4, 7, 16, 64, 100, rng.randint(2, 400), rng.randint(400, 20000)]), "B": rng.choice([2, 3, 4, 5, 7]), "j_min": rng.choice([0, 1, 2, 3])})
    for _ in range(20 if q else 200):
        out.append({"kind": "axi", "L": rng.randint(2, 24), "B": rng.choice([2, 3, 4]), "j_min": rng.choice([0, 1, 2]), "s": rng.randrange(10**6)})
    for lo, hi in ((25, 64), (65, 128), (182, 230)):
        for _ in range(1 if q else 6):
            out.append({"kind": "axi", "L": rng.randint(lo, hi), "B": rng.choice([2, 3, 4]), "j_min": rng.choice([0, 1, 2]), "s": rng.randrange(10**6), "w": 4})
    for _ in range(20 if q else 200):
        n = rng.choice([16, 25, 36, 64, 100, 144, rng.randint(9, 300)])
        out.append({"kind": "slepian", "n": n, "N": rng.randint(1, n), "B": rng.choice([2, 3, 4]), "j_min": rng.choice([0, 1, 2]), "s": rng.randrange(10**6)})
    for r in rg.sphere_regions(rng, 9 if q else 60, l_max=9, polar_l_max=8, l_min=4):
        out.append({"kind": "sphere-classes", "w": 10, **r, "B": rng.choice([2, 3]), "j_min": rng.choice([0, 1, 2])})
    for i in range(4 if q else 18):
        out.append({"kind": "mesh-classes", "w": 8, "name": (ml.SMALL if q else ml.NAMES)[i % (3 if q else 6)], "nb": rng.randint(20, 60), "B": rng.choice([2, 3]), "j_min": rng.choice([0, 1, 2])})
    for i in range(2 if q else 8):
        out.append({"kind": "earth-classes", "w": 12, "L": rng.randint(6, 8), "B": rng.choice([2, 3]), "j_min": rng.choice([0, 1, 2]), "s": rng.randrange(10**6)})
    dim = {"axi": lambda c: c["L"], "slepian": lambda c: c["n"], "tiling": lambda c: c["n"], "earth-classes": lambda c: c["L"],
           "sphere-classes": lambda c: c["L"] ** 2, "mesh-classes": lambda c: c["nb"]}
    for c in out:  # the lowest scale must not exceed the highest one
        while c["B"] ** c["j_min"] > dim[c["kind"]](c):
            c["j_min"] -= 1
    return out


def signal(rng, kind, n, kap=None):
    f = o.random_flm(rng, n)
    if kind == "real":
        return f.real.copy()
    if kind == "zero":
        return np.zeros(n, complex)
    if kind == "first":
        return np.where(np.arange(n) == 0, f, 0)
    if kind == "last":
        return np.where(np.arange(n) == n - 1, f, 0)
    if kind == "sparse":
        return np.where(rng.random(n) < 0.15, f, 0)
    if kind == "one-scale" and kap is not None:
        j = rng.integers(len(kap))
        return np.where(kap[j, :n] > 0, f, 0)
    if kind == "cancelling":  # pairs of opposite coefficients
        f = np.where(rng.random(n) < 0.2, f, 0)
        f[: n // 2 * 2] = np.stack([f[: n // 2], -f[: n // 2]], 1).ravel()
        return f
    if kind == "real-zonal":  # complex, but not where the order is zero
        i = np.arange(n)
        ell = np.sqrt(i).astype(int)
        return np.where(i == ell * (ell + 1), f.real, f)
    if kind == "huge":
        return f * 1e10
    if kind == "tiny":
        return f * 1e-12
    return f


def tiling(ctx, kap, n, msg):
    ctx.check(kap.ndim == 2 and kap.shape[1] == n, "tiling", lambda: f"{msg}: shape {kap.shape}")
    ctx.check(np.isrealobj(kap) and kap.min() >= 0, "tiling", lambda: f"{msg}: not real and non-negative")
    ctx.close((kap**2).sum(axis=0), np.ones(n), 1e-9, "tiling", f"{msg}: sum of squares")


def scales_expected(kap_or_wav, N):
    """Index of the scales that are not identically zero below N."""
    return np.where((np.asarray(kap_or_wav)[:, :N] != 0).any(axis=1))[0]


def slepian_rt(ctx, f_p, wav, N, msg, mon="slepian-roundtrip"):
    import sleplet

    w = sleplet.wavelet_methods
    keep = np.asarray(f_p).copy()
    c = w.slepian_wavelet_forward(f_p, wav, N)
    idx = scales_expected(wav, N)
    scale = 1e-10 * (np.abs(keep).max() + 1e-300) + 1e-300
    ctx.check(len(c) == len(idx), "dropped-scales", lambda: f"{msg}: {len(c)} scales instead of {len(idx)}")
    if len(c) == len(idx):
        ctx.close(c[:, :N], np.asarray(wav)[idx][:, :N] * np.conj(keep[:N])[None], scale, "slepian-coefficients", msg)
    back = w.slepian_wavelet_inverse(c, wav, N)
    # scales are the lowest ones unless one in the middle is empty, which create_kappas never makes
    if list(idx) == list(range(len(idx))):
        ctx.close(back[:N], keep[:N], scale * 10, mon, msg)


def axi_rt(ctx, L, flm, wav, kap, msg):
    import sleplet

    w = sleplet.wavelet_methods
    keep = np.asarray(flm).copy()
    c = w.axisymmetric_wavelet_forward(L, flm, wav)
    ell, _ = o.elm(L)
    scale = 1e-10 * np.abs(keep).max() + 1e-300
    ctx.close(c, kap[:, ell] * keep[None], scale, "axisymmetric-coefficients", msg)
    ctx.close(w.axisymmetric_wavelet_inverse(L, c, wav), keep, 10 * scale, "axisymmetric-roundtrip", msg)
    # wavelets of one's own: a phase for each scale and degree leaves the transform tight
    phase = np.exp(1j * np.arange(len(wav))[:, None] * (1.0 + np.arange(L) ** 2)[None])[:, ell]
    own = np.asarray(wav) * phase
    c = w.axisymmetric_wavelet_forward(L, keep.copy(), own)
    ctx.close(c, kap[:, ell] * phase.conj() * keep[None], scale, "axisymmetric-coefficients", f"{msg}: complex wavelets")
    ctx.close(w.axisymmetric_wavelet_inverse(L, c, own), keep, 10 * scale, "axisymmetric-roundtrip", f"{msg}: complex wavelets")


def run_case(ctx, case):
    import sleplet

    w = sleplet.wavelet_methods
    k = case["kind"]
    B, j_min = case["B"], case["j_min"]
    if k == "tiling":
        n = case["n"]
        kap = w.create_kappas(n, B, j_min)
        tiling(ctx, kap, n, f"n={n} B={B} j_min={j_min}")
        if len(kap) > 1:
            ctx.nontrivial(f"tiling {n} {B} {j_min}")
    elif k == "axi":
        L = case["L"]
        rng = np.random.default_rng(case["s"])
        a = sleplet.functions.AxisymmetricWavelets(L, B=B, j_min=j_min)
        kap = w.create_kappas(L, B, j_min)
        ell, emm = o.elm(L)
        want = np.where(emm == 0, np.sqrt((2 * ell + 1) / (4 * np.pi)) * kap[:, ell], 0)
        ctx.close(a.wavelets, want, 1e-11, "axisymmetric-wavelets", case)
        ctx.close(a.coefficients, want[0], 1e-11, "axisymmetric-wavelets", "scaling")
        for j in range(len(kap) - 1):
            ctx.close(sleplet.functions.AxisymmetricWavelets(L, B=B, j_min=j_min, j=j).coefficients, want[j + 1], 1e-11, "axisymmetric-wavelets", f"{case} j={j}")
        tiling(ctx, kap, L, case)
        for s in KINDS:
            axi_rt(ctx, L, signal(rng, s, L * L), a.wavelets, kap, f"{case} {s}")
            if s != "zero" and len(kap) > 1:
                ctx.nontrivial(f"axi {L} {B} {j_min} {s}")
    elif k == "slepian":
        rng = np.random.default_rng(case["s"])
        kap = w.create_kappas(case["n"], B, j_min)
        for s in KINDS:
            for length in {case["N"], case["n"]}:
                slepian_rt(ctx, signal(rng, s, length, kap), kap, case["N"], f"{case} {s} length {length}")
            if s != "zero" and len(kap) > 1:
                ctx.nontrivial(f"slepian {case['n']} {case['N']} {B} {j_min} {s}")
        z = o.random_flm(rng, 60).reshape(6, 10)
        z[[1, 4]] = 0
        z[2, :9] = 0
        ctx.same(w.find_non_zero_wavelet_coefficients(z, axis=1), z[[0, 2, 3, 5]], "non-zero-scales", case)
        y = z.reshape(6, 2, 5)
        ctx.same(w.find_non_zero_wavelet_coefficients(y, axis=(1, 2)), y[[0, 2, 3, 5]], "non-zero-scales", case)
        # coefficients that cancel, are tiny, imaginary or negative do not vanish
        z = np.zeros((7, 4), complex)
        z[0, :2] = 1, -1
        z[1] = 1, 1j, -1, -1j
        z[3, 3] = 10.0 ** -int(rng.integers(20, 300))
        z[4] = -2j
        z[5, 1] = -1
        ctx.same(w.find_non_zero_wavelet_coefficients(z, axis=1), z[[0, 1, 3, 4, 5]], "non-zero-scales", f"{case}: cancelling")
        ctx.same(w.find_non_zero_wavelet_coefficients(z.real.copy(), axis=1), z.real[[0, 1, 3, 5]], "non-zero-scales", f"{case}: cancelling, real")
        ctx.same(w.find_non_zero_wavelet_coefficients(z.reshape(7, 2, 2), axis=(1, 2)), z.reshape(7, 2, 2)[[0, 1, 3, 4, 5]], "non-zero-scales", f"{case}: cancelling, fields")
    elif k == "sphere-classes":
        L = case["L"]
        reg = rg.region_of(case)
        sw = sleplet.functions.SlepianWavelets(L, region=reg, B=B, j_min=j_min)
        kap = w.create_kappas(L * L, B, j_min)
        ctx.same(np.asarray(sw.wavelets), kap, "sphere-classes", f"{case}: wavelets")
        ctx.same(np.asarray(sw.coefficients), kap[0], "sphere-classes", f"{case}: scaling function")
        for j in range(len(kap) - 1):
            ctx.same(np.asarray(sleplet.functions.SlepianWavelets(L, region=reg, B=B, j_min=j_min, j=j).coefficients), kap[j + 1], "sphere-classes", f"{case} j={j}")
        tiling(ctx, kap, L * L, case)
        rng = np.random.default_rng(L)
        for s in KINDS:
            slepian_rt(ctx, signal(rng, s, max(sw.slepian.N, 1), kap), kap, sw.slepian.N, f"{case} {s}")
        ctx.nontrivial(f"sphere classes {rg.describe(case)} {L} {B} {j_min}")
    elif k == "mesh-classes":
        m = ml.mesh(case["name"], case["nb"])
        sw = sleplet.meshes.MeshSlepianWavelets(m, B=B, j_min=j_min)
        kap = w.create_kappas(case["nb"], B, j_min)
        ctx.same(np.asarray(sw.wavelets), kap, "mesh-classes", case)
        N = sw.mesh_slepian.N
        sc = sleplet.meshes.MeshSlepianWaveletCoefficients(m, B=B, j_min=j_min)
        f = sleplet.meshes.MeshSlepianField(m)
        idx = scales_expected(kap, N)
        ctx.check(len(sc.wavelet_coefficients) == len(idx), "mesh-classes", f"{case}: number of scales")
        ctx.close(np.asarray(sc.wavelet_coefficients), (kap[idx][:, :N] * np.conj(f.coefficients)[None]), 1e-12 * (1 + np.abs(f.coefficients).max()), "mesh-classes", f"{case}: coefficients")
        ctx.close(w.slepian_wavelet_inverse(sc.wavelet_coefficients, sc.wavelets, N), f.coefficients, 1e-10 * (1 + np.abs(f.coefficients).max()), "mesh-classes", f"{case}: reconstruction")
        for j in list(range(len(idx) - 1)):
            cj = sleplet.meshes.MeshSlepianWaveletCoefficients(m, B=B, j_min=j_min, j=j)
            ctx.close(cj.coefficients, sc.wavelet_coefficients[j + 1], 1e-13, "mesh-classes", f"{case} j={j}")
            wj = sleplet.meshes.MeshSlepianWavelets(m, B=B, j_min=j_min, j=j)
            ctx.same(np.asarray(wj.coefficients), kap[j + 1], "mesh-classes", f"{case} j={j}")
        ctx.nontrivial(f"mesh {case['name']} {case['nb']} {B} {j_min}")
    elif k == "earth-classes":
        import earthlib

        L = case["L"]
        earthlib.populate(ctx, case["s"])
        F = sleplet.functions
        kap, kap2 = w.create_kappas(L, B, j_min), w.create_kappas(L * L, B, j_min)
        ell, _ = o.elm(L)
        for cls, src in ((F.AxisymmetricWaveletCoefficientsEarth, F.Earth), (F.AxisymmetricWaveletCoefficientsAfrica, F.Africa), (F.AxisymmetricWaveletCoefficientsSouthAmerica, F.SouthAmerica)):
            c = cls(L, B=B, j_min=j_min)
            f = src(L).coefficients
            sc = 1e-10 * np.abs(f).max()
            ctx.close(c.wavelet_coefficients, kap[:, ell] * f[None], sc, "earth-classes", f"{case} {cls.__name__}")
            ctx.close(w.axisymmetric_wavelet_inverse(L, c.wavelet_coefficients, c.wavelets), f, 10 * sc, "earth-classes", f"{case} {cls.__name__} reconstruction")
            for j in range(len(kap) - 1):
                ctx.close(cls(L, B=B, j_min=j_min, j=j).coefficients, c.wavelet_coefficients[j + 1], sc * 1e-3, "earth-classes", f"{case} {cls.__name__} j={j}")
        for cls, src, name in ((F.SlepianWaveletCoefficientsAfrica, F.SlepianAfrica, "africa"), (F.SlepianWaveletCoefficientsSouthAmerica, F.SlepianSouthAmerica, "south_america")):
            reg = sleplet.slepian.Region(mask_name=name)
            f = src(L, region=reg)
            N = f.slepian.N
            if N == 0:  # these data have no such continent
                continue
            c = cls(L, B=B, j_min=j_min, region=reg)
            idx = scales_expected(kap2, N)
            sc = 1e-10 * np.abs(f.coefficients).max()
            ctx.close(np.asarray(c.wavelet_coefficients), kap2[idx][:, :N] * np.conj(f.coefficients)[None], sc, "earth-classes", f"{case} {cls.__name__}")
            ctx.close(w.slepian_wavelet_inverse(c.wavelet_coefficients, c.wavelets, N), f.coefficients, 10 * sc, "earth-classes", f"{case} {cls.__name__} reconstruction")
            for j in range(len(idx) - 1):
                ctx.close(cls(L, B=B, j_min=j_min, j=j, region=reg).coefficients, c.wavelet_coefficients[j + 1], sc * 1e-3, "earth-classes", f"{case} {cls.__name__} j={j}")
        ctx.nontrivial(f"earth {L} {B} {j_min}")
    else:
        raise core.Skip(k)
