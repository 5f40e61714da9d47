"""C19: each spherical function has the coefficients its definition says."""

import math
import random

import numpy as np

import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "a function is non-trivial when L >= 2 and its coefficients are not all equal; distinct by class, parameters and band-limit"
REQUIRED = {"gaussian": 10, "harmonic-gaussian": 10, "grid-function": 20, "dirac-delta": 8, "identity": 8, "spherical-harmonic": 20, "ridgelet": 20, "wavelet": 20,
            "generating-function": 20, "reality": 60, "spin": 12, "extra-args": 20, "slepian-function": 10, "slepian-delta": 3, "slepian-identity": 3, "slepian-wavelet": 6,
            "mesh-basis": 12, "mesh-field": 6, "mesh-slepian": 12, "mesh-wavelet": 12, "flags": 20}


def cases(tier, rng):
    k = 1 if tier == "quick" else 30
    out = []
    for _ in range(3 * k):
        out.append({"kind": "flm", "sub": rng.randrange(10**9), "n": 12})
        out.append({"kind": "wavelets", "sub": rng.randrange(10**9), "n": 8})
        out.append({"kind": "reality", "sub": rng.randrange(10**9), "n": 24, "w": 2})
    for _ in range(1 if tier == "quick" else 12):
        out.append({"kind": "high", "L": rng.randint(172, 260), "sub": rng.randrange(10**9), "w": 3})
        out.append({"kind": "high", "L": rng.randint(40, 171), "sub": rng.randrange(10**9), "w": 2})
    for i in range(4 * k):
        out.append({"kind": "slepian", "sub": rng.randrange(10**9), "type": ["polar", "box", "gap", "mask"][i % 4], "L": rng.randint(2, 6), "w": 3})
    for _ in range(1 if tier == "quick" else 5):
        for name in ml.NAMES:
            out.append({"kind": "mesh", "name": name, "nb": rng.randint(8, 40), "sub": rng.randrange(10**9), "w": 2})
        out.append(treelib.cases_on(rng, 6, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(4, 18), "sub": rng.randrange(10**9)}]))
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]))


def width(rng):
    return rng.choice([0.1, 0.25, 0.5, 1.0, 2.0, 3.7, 10.0, 100.0, rng.uniform(0.2, 5)])


def note(ctx, L, f, what):
    if L >= 2 and np.size(f) and np.ptp(np.abs(f)) > 0:
        ctx.nontrivial(what)


def forward(f, L):
    import pyssht

    return pyssht.forward(np.ascontiguousarray(f), L, Method="MWSS", Reality=True)


def do_flm(ctx, case, rng):
    F = fc.fn
    for i in range(case["n"]):
        L = [1, 2, 3][i] if i < 3 else rng.randint(2, 16)
        ell, emm = o.elm(L)
        T, P = np.meshgrid(*o.grid(L), indexing="ij")
        s = width(rng)
        f = F("Gaussian")(L, sigma=s)
        ctx.close(f.coefficients, np.where(emm == 0, np.exp(-ell * (ell + 1) / (2 * s * s)), 0) + 0j, 1e-15, "gaussian", f"Gaussian({L}, sigma={s})")
        note(ctx, L, f.coefficients, f"Gaussian {L} {s}")
        a, b = width(rng), width(rng)
        f = F("HarmonicGaussian")(L, l_sigma=a, m_sigma=b)
        ctx.close(f.coefficients, np.exp(-(ell / a) ** 2 / 2 - (emm / b) ** 2 / 2) + 0j, 1e-15, "harmonic-gaussian", f"HarmonicGaussian({L}, {a}, {b})")
        note(ctx, L, f.coefficients, f"HarmonicGaussian {L} {a} {b}")
        a, b = width(rng), width(rng)
        f = F("SquashedGaussian")(L, t_sigma=a, freq=b)
        ctx.close(f.coefficients, forward(np.exp(-(T / a) ** 2 / 2) * np.sin(b * P), L), 1e-13, "grid-function", f"SquashedGaussian({L}, t_sigma={a}, freq={b})")
        note(ctx, L, f.coefficients, f"SquashedGaussian {L} {a} {b}")
        f = F("ElongatedGaussian")(L, t_sigma=a, p_sigma=b)
        ctx.close(f.coefficients, forward(np.exp(-((T / a) ** 2 + ((P - np.pi) / b) ** 2) / 2), L), 1e-13, "grid-function", f"ElongatedGaussian({L}, t_sigma={a}, p_sigma={b})")
        note(ctx, L, f.coefficients, f"ElongatedGaussian {L} {a} {b}")
        f = F("DiracDelta")(L)
        ctx.close(f.coefficients, o.ylm(L, np.array([0.0]), np.array([0.0]))[0].conj(), 1e-13, "dirac-delta", f"DiracDelta({L})")
        ctx.check((F("Identity")(L).coefficients == np.ones(L * L)).all() and F("Identity")(L).coefficients.shape == (L * L,), "identity", f"Identity({L})")
        for _ in range(3):
            l = rng.randrange(L)
            m = rng.randint(-l, l)
            f = F("SphericalHarmonic")(L, ell=l, m=m)
            want = np.zeros(L * L, complex)
            want[(ell == l) & (emm == m)] = 1
            ctx.same(f.coefficients, want, "spherical-harmonic", f"SphericalHarmonic({L}, {l}, {m})")
            g = F("SphericalHarmonic")(L, extra_args=[l, m])
            ctx.same(g.coefficients, want, "extra-args", f"SphericalHarmonic({L}, extra_args=[{l}, {m}])")
            note(ctx, L, f.coefficients, f"SphericalHarmonic {L} {l} {m}")
        x, y = rng.randint(-2, 2), rng.randint(-2, 2)
        for n, args, kw in [("Gaussian", [x], {"sigma": 10.0**x}), ("HarmonicGaussian", [x, y], {"l_sigma": 10.0**x, "m_sigma": 10.0**y}),
                            ("SquashedGaussian", [x, y], {"t_sigma": 10.0**x, "freq": 10.0**y}), ("ElongatedGaussian", [x, y], {"t_sigma": 10.0**x, "p_sigma": 10.0**y})]:
            ctx.close(F(n)(L, extra_args=args).coefficients, F(n)(L, **kw).coefficients, 1e-13, "extra-args", f"{n}({L}, extra_args={args})")


# ---------------------------------------------------------------- wavelets
_k = {}


def profile(lam):
    """k(t) of the scale-discretised wavelets on a fine table, from its defining integral."""
    if lam not in _k:
        x, w = np.polynomial.legendre.leggauss(400)
        t = np.linspace(1 / lam, 1, 4001)

        def s2(u):
            v = 2 * lam / (lam - 1) * (u - 1 / lam) - 1
            return np.where(np.abs(v) < 1, np.exp(-2 / np.maximum(1 - v * v, 1e-300)), 0) / u

        mid, half = (t[1:] + t[:-1]) / 2, (t[1:] - t[:-1]) / 2
        x, w = np.polynomial.legendre.leggauss(4)
        piece = (s2(mid[:, None] + half[:, None] * x[None]) * w).sum(1) * half
        k = np.append(piece[::-1].cumsum()[::-1], 0)
        _k[lam] = t, k / k[0]
    return _k[lam]


def k_of(lam, u):
    t, k = profile(lam)
    return np.interp(u, t, k, left=1.0, right=0.0)


def kappas(L, B, j_min):
    """Generating functions by definition: scaling function, then the scales."""
    l = np.arange(L)
    J = max(j_min, math.ceil(math.log(L) / math.log(B) - 1e-12)) if L > 1 else j_min
    out = [np.sqrt(k_of(B, l / B**j_min))]
    for j in range(j_min, J + 1):
        out.append(np.sqrt(np.maximum(k_of(B, l / B ** (j + 1)) - k_of(B, l / B**j), 0)))
    return np.array(out)


def j_max(B, L, j_min):
    import pys2let

    return pys2let.pys2let_j_max(B, L, j_min)


def do_wavelets(ctx, case, rng):
    import sleplet

    for _ in range(case["n"]):
        L, B = rng.randint(2, 24), rng.randint(2, 5)
        top = int(math.log(L) / math.log(B))
        j_min = rng.randint(0, max(0, top))
        kap = sleplet.wavelet_methods.create_kappas(L, B, j_min)
        J = j_max(B, L, j_min)
        if not ctx.check(kap.shape == (J - j_min + 2, L), "generating-function", f"generating functions of L={L} B={B} j_min={j_min} have shape {kap.shape}"):
            continue
        want = kappas(L, B, j_min)
        n = min(len(want), len(kap))
        ctx.close(kap[:n] ** 2, want[:n] ** 2, 2e-3, "generating-function", f"L={L} B={B} j_min={j_min}")
        ctx.close(kap[n:] ** 2, 0 * kap[n:], 2e-3, "generating-function", f"L={L} B={B} j_min={j_min}: further scales")
        ell, emm = o.elm(L)
        for j in [None, *rng.sample(range(J - j_min + 1), min(2, J - j_min + 1))]:
            i = 0 if j is None else j + 1
            f = fc.fn("AxisymmetricWavelets")(L, B=B, j_min=j_min, j=j)
            w = np.where(emm == 0, np.sqrt((2 * ell + 1) / (4 * np.pi)) * kap[i][ell], 0) + 0j
            ctx.close(f.coefficients, w, 1e-14, "wavelet", f"AxisymmetricWavelets({L}, {B}, {j_min}, {j})")
            ctx.close(f.wavelets[i], w, 1e-14, "wavelet", f"wavelets of AxisymmetricWavelets({L}, {B}, {j_min}, {j})")
            ctx.check(len(f.wavelets) == len(kap), "wavelet", f"{len(f.wavelets)} wavelets instead of {len(kap)}")
            spin = rng.randint(-3, 3)
            r = fc.fn("Ridgelets")(L, B=B, j_min=j_min, j=j, spin=spin)
            ring = np.array([0 if l < abs(spin) else 2 * np.pi * (-1) ** spin * np.sqrt((2 * l + 1) / (4 * np.pi)) * small_d(l, spin) for l in range(L)])
            w = np.where(emm == 0, (ring * kap[i])[ell], 0) * (1 if j is None else 1 / np.sqrt(2 * np.pi)) + 0j
            ctx.close(r.coefficients, w, 1e-10 * L, "ridgelet", f"Ridgelets({L}, {B}, {j_min}, {j}, spin={spin})")
            ctx.check(r.spin == spin and not r.reality, "flags", f"Ridgelets({L}, spin={spin}): spin {r.spin} reality {r.reality}")
            ctx.check((r.coefficients[ell < abs(spin)] == 0).all(), "spin", f"Ridgelets({L}, spin={spin}) has content below its spin")
            note(ctx, L, w, f"wavelets {L} {B} {j_min} {j} {spin}")
            if j is not None:
                g = fc.fn("AxisymmetricWavelets")(L, extra_args=[B, j_min, j])
                ctx.same(g.coefficients, f.coefficients, "extra-args", f"AxisymmetricWavelets({L}, extra_args=[{B}, {j_min}, {j}])")
                g = fc.fn("Ridgelets")(L, extra_args=[B, j_min, spin, j])
                ctx.same(g.coefficients, r.coefficients, "extra-args", f"Ridgelets({L}, extra_args=[{B}, {j_min}, {spin}, {j}])")


def small_d(l, s):
    """sqrt((l-s)!/(l+s)!) P_l^s(0): zero for odd l + s."""
    if (l + s) % 2:
        return 0.0
    lg = math.lgamma
    n, p = (l - s) // 2, (l + s) // 2
    return (-1) ** p * math.exp(0.5 * (lg(l + s + 1) + lg(l - s + 1)) - l * math.log(2) - lg(n + 1) - lg(p + 1))


def do_high(ctx, case, rng):
    """The same definitions at the band-limits that people use."""
    import sleplet

    F, L = fc.fn, case["L"]
    ell, emm = o.elm(L)
    s, a, b = width(rng), width(rng), width(rng)
    f = F("Gaussian")(L, sigma=s)
    ctx.close(f.coefficients, np.where(emm == 0, np.exp(-ell * (ell + 1) / (2 * s * s)), 0) + 0j, 1e-15, "gaussian", f"Gaussian({L}, sigma={s})")
    f = F("HarmonicGaussian")(L, l_sigma=a, m_sigma=b)
    ctx.close(f.coefficients, np.exp(-(ell / a) ** 2 / 2 - (emm / b) ** 2 / 2) + 0j, 1e-15, "harmonic-gaussian", f"HarmonicGaussian({L}, {a}, {b})")
    f = F("DiracDelta")(L)
    ctx.close(f.coefficients, np.where(emm == 0, np.sqrt((2 * ell + 1) / (4 * np.pi)), 0) + 0j, 1e-12, "dirac-delta", f"DiracDelta({L})")
    ctx.check((F("Identity")(L).coefficients == 1).all(), "identity", f"Identity({L})")
    for _ in range(4):
        l = rng.choice([L - 1, rng.randrange(L)])
        m = rng.choice([-l, l, rng.randint(-l, l)])
        want = ((ell == l) & (emm == m)).astype(complex)
        ctx.same(F("SphericalHarmonic")(L, ell=l, m=m).coefficients, want, "spherical-harmonic", f"SphericalHarmonic({L}, {l}, {m})")
        note(ctx, L, want, f"SphericalHarmonic {L} {l} {m}")
    T, P = np.meshgrid(*o.grid(L), indexing="ij")
    a, b = rng.uniform(0.3, 2), rng.uniform(0.3, 2)
    f = F("SquashedGaussian")(L, t_sigma=a, freq=b)
    ctx.close(f.coefficients, forward(np.exp(-(T / a) ** 2 / 2) * np.sin(b * P), L), 1e-12, "grid-function", f"SquashedGaussian({L}, t_sigma={a}, freq={b})")
    f = F("ElongatedGaussian")(L, t_sigma=a, p_sigma=b)
    ctx.close(f.coefficients, forward(np.exp(-((T / a) ** 2 + ((P - np.pi) / b) ** 2) / 2), L), 1e-12, "grid-function", f"ElongatedGaussian({L}, t_sigma={a}, p_sigma={b})")
    B = rng.randint(2, 5)
    j_min = rng.randint(0, int(math.log(L) / math.log(B)))
    kap = sleplet.wavelet_methods.create_kappas(L, B, j_min)
    J = j_max(B, L, j_min)
    want = kappas(L, B, j_min)
    n = min(len(want), len(kap))
    ctx.close(kap[:n] ** 2, want[:n] ** 2, 2e-3, "generating-function", f"L={L} B={B} j_min={j_min}")
    ctx.close((kap**2).sum(axis=0), np.ones(L), 1e-10, "generating-function", f"L={L} B={B} j_min={j_min}: the scales tile the harmonic line")
    for j in [None, J - j_min, rng.randrange(J - j_min + 1)]:
        i = 0 if j is None else j + 1
        w = np.where(emm == 0, np.sqrt((2 * ell + 1) / (4 * np.pi)) * kap[i][ell], 0) + 0j
        ctx.close(F("AxisymmetricWavelets")(L, B=B, j_min=j_min, j=j).coefficients, w, 1e-12, "wavelet", f"AxisymmetricWavelets({L}, {B}, {j_min}, {j})")
        spin = rng.choice([0, 1, 2, -2, rng.randint(-8, 8)])
        r = F("Ridgelets")(L, B=B, j_min=j_min, j=j, spin=spin)
        ring = np.array([0 if l < abs(spin) else 2 * np.pi * (-1) ** spin * np.sqrt((2 * l + 1) / (4 * np.pi)) * small_d(l, spin) for l in range(L)])
        w = np.where(emm == 0, (ring * kap[i])[ell], 0) * (1 if j is None else 1 / np.sqrt(2 * np.pi)) + 0j
        ctx.close(r.coefficients, w, 1e-9 * L, "ridgelet", f"Ridgelets({L}, {B}, {j_min}, {j}, spin={spin})")
        ctx.check(np.isfinite(r.coefficients).all(), "flags", f"Ridgelets({L}, {B}, {j_min}, {j}, spin={spin}) is not finite")
        note(ctx, L, w, f"wavelets {L} {B} {j_min} {j} {spin}")


# ---------------------------------------------------------------- flags
def do_reality(ctx, case, rng):
    earthlib.populate(ctx, case["sub"])
    names = {**fc.FLM, **fc.EARTH_FLM}
    for _ in range(case["n"]):
        L = rng.randint(4, 9)
        c = {"L": L, "fn": (n := rng.choice(sorted(names))), "args": rng.choice(names[n])}
        kw = {}
        if rng.random() < 0.3 and n != "Ridgelets":
            kw["noise"] = rng.choice([-5, 0, 10])
        if rng.random() < 0.4:
            kw["region"] = rg.region_of(rg.box(rng) if rng.random() < 0.5 else rg.polar(rng))
        if rng.random() < 0.4:
            kw["smoothing"] = rng.choice([1, 3, 10])
        f = fc.make(c, **kw)
        what = f"{n}({L}, {c['args']}, {sorted(kw)})"
        x = f.coefficients
        size = np.abs(x).max()
        ell, emm = o.elm(L)
        ctx.check(x.shape == (L * L,) and np.isfinite(x).all(), "flags", f"{what}: coefficients of shape {x.shape}")
        if f.reality:
            ctx.close(x, o.hermitian(x, L), 1e-12 * size, "reality", f"{what}: conjugate symmetry of a function that is declared real")
            ctx.check(np.abs(o.synthesise(x, L).imag).max() <= 1e-12 * max(size, 1e-300) * L, "reality", f"{what}: imaginary part of a field that is declared real")
            ctx.check(f.spin == 0, "flags", f"{what}: real with spin {f.spin}")
        if f.spin:
            ctx.check((np.abs(x[ell < abs(f.spin)]) <= 1e-13 * size).all(), "spin", f"{what}: content below degree {f.spin}")
        if n in ("Gaussian", "SquashedGaussian", "ElongatedGaussian", "DiracDelta", "Earth", "Wmap", "Africa", "SouthAmerica", "NoiseEarth", "AxisymmetricWavelets"):
            ctx.check(bool(f.reality), "flags", f"{what} is real and not declared so")
        note(ctx, L, x, what)
    # functions of a Slepian basis: coefficients of no particular symmetry, without spin
    n = rng.choice(sorted({**fc.FP, **fc.EARTH_FP}))
    L = rng.randint(5, 7)
    import sleplet

    if n in fc.FP:
        regions, args = rg.region_of(rg.box(rng) if rng.random() < 0.5 else rg.polar(rng)), fc.FP[n][0]
    else:
        mask, all_args = fc.EARTH_FP[n]
        regions, args = sleplet.slepian.Region(mask_name=mask), all_args[0]
    if sleplet.slepian_methods.choose_slepian_method(L, regions).N > 0:  # else there are no coefficients at all
        f = fc.fn(n)(L, region=regions, **args)
        ctx.check(not f.reality and f.spin == 0, "flags", f"{n}: declared {'real' if f.reality else 'complex'} with spin {f.spin}")
    for cls in sorted(fc.MESH)[case["sub"] % 3 :: 3]:
        f = fc.meshfn(cls)(ml.mesh("bird", 24))
        ctx.check(np.isrealobj(f.coefficients) and np.isfinite(f.coefficients).all(), "flags", f"{cls}: coefficients of {f.coefficients.dtype}")


# ---------------------------------------------------------------- Slepian
def do_slepian(ctx, case, rng):
    import sleplet

    L, t = case["L"], case["type"]
    for _ in range(3):
        if t == "mask":
            reg = {**rg.mask_regions(rng, 1)[0], "L": L}
            reg["shape"] = rng.choice(["blob", "cap", "two"])
            rg.write_mask(reg)
        else:
            reg = {"L": L, **(rg.box(rng) if t == "box" else rg.polar(rng, gap=t == "gap"))}
        region = rg.region_of(reg)
        sol = rg.build(reg)
        N, ev = sol.N, np.asarray(sol.eigenvectors)
        if N == 0:  # (no function is kept of such a region)
            continue
        what = f"{rg.describe(reg)} L={L} N={N}"
        for rank in sorted({0, *(rng.randrange(max(N, 1)) for _ in range(2))}):
            if rank >= len(ev):
                continue
            f = fc.fn("Slepian")(L, region=region, rank=rank)
            want = np.eye(max(N, 1))[rank][:N] + 0j if rank < N else np.zeros(N, complex)
            ctx.close(f.coefficients, want, 1e-9, "slepian-function", f"Slepian rank {rank} of {what}")
            if rank < N:
                ctx.close(sleplet.slepian_methods.slepian_inverse(f.coefficients, L, f.slepian), o.synthesise(ev[rank], L), 1e-9, "slepian-function", f"field of Slepian rank {rank} of {what}")
            ctx.check(f.slepian.N == N and not f.reality and f.spin == 0, "flags", f"{what}: flags of Slepian")
            g = fc.fn("Slepian")(L, region=region, extra_args=[rank])
            ctx.same(g.coefficients, f.coefficients, "extra-args", f"Slepian(extra_args=[{rank}]) of {what}")
            note(ctx, L, want, f"{what} {rank}")
        # Dirac delta at the sample where the first function is largest
        d = fc.fn("SlepianDiracDelta")(L, region=region)
        S = np.array([o.synthesise(ev[p], L) for p in range(N)]).reshape(N, -1) if N else np.zeros((0, (L + 1) * 2 * L))
        first = o.synthesise(ev[0], L).real.reshape(-1)
        at = np.where(first >= first.max() - 1e-9 * np.abs(first).max())[0]
        c = np.pad(d.coefficients, (0, max(0, L * L - len(d.coefficients))))
        errs = [np.abs(c[:N] - S[:, i].conj()).max(initial=0) + np.abs(c[N:]).max(initial=0) for i in at]
        ctx.check(min(errs) <= 1e-9 * max(1, np.abs(S).max(initial=0)), "slepian-delta", f"Slepian Dirac delta of {what}: {d.coefficients.shape} off by {min(errs)} from the delta at the maximum")
        i = fc.fn("SlepianIdentity")(L, region=region)
        ctx.check(i.coefficients.shape == (L * L,) and (i.coefficients == 1).all(), "slepian-identity", f"Slepian identity of {what}")
        ctx.check(not i.reality and not d.reality and i.spin == d.spin == 0, "slepian-identity", f"flags, {what}")
        B, j_min = rng.choice([(2, 0), (2, 1), (3, 0), (3, 1)])
        J = j_max(B, L * L, j_min)
        kap = sleplet.wavelet_methods.create_kappas(L * L, B, j_min)
        for j in [None, rng.randrange(J - j_min + 1)]:
            w = fc.fn("SlepianWavelets")(L, region=region, B=B, j_min=j_min, j=j)
            ctx.close(w.coefficients, kap[0 if j is None else j + 1], 1e-15, "slepian-wavelet", f"SlepianWavelets {B} {j_min} {j} of {what}")
            ctx.close(w.wavelets, kap, 1e-15, "slepian-wavelet", f"all SlepianWavelets {B} {j_min} of {what}")


# ---------------------------------------------------------------- meshes
def normals(v, f):
    """Vertex normals: face normals weighted by area."""
    n = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
    out = np.zeros_like(v)
    for k in range(3):
        np.add.at(out, f[:, k], n)
    return out / np.linalg.norm(out, axis=1)[:, None]


def do_mesh(ctx, case, rng):
    import sleplet

    m = ml.mesh(case["name"], case["nb"])
    M = sleplet.meshes
    v, f = np.asarray(m.vertices, float), np.asarray(m.faces)
    nb = len(m.basis_functions)
    field = normals(v, f)[:, 1]
    proj = lambda x: np.asarray(m.basis_functions) @ x  # noqa: E731
    mf = M.MeshField(m)
    ctx.close(mf.coefficients, proj(field), 1e-9 * np.abs(proj(field)).max(), "mesh-field", f"MeshField of {case['name']}")
    for r in sorted({0, nb - 1, rng.randrange(nb)}):
        b = M.MeshBasisFunctions(m, rank=r)
        ctx.close(b.coefficients, proj(m.basis_functions[r]), 1e-9, "mesh-basis", f"basis function {r} of {case['name']}")
        ctx.same(M.MeshBasisFunctions(m, extra_args=[r]).coefficients, b.coefficients, "extra-args", f"MeshBasisFunctions(extra_args=[{r}])")
        ctx.nontrivial(f"{case['name']} {nb} {r}")
    ms = M.MeshSlepian(m)
    N = ms.N
    for r in sorted({0, *(rng.randrange(max(N, 1)) for _ in range(2))}):
        if N == 0:
            break
        s = M.MeshSlepianFunctions(m, rank=r)
        ctx.close(s.coefficients, np.eye(N)[r], 1e-9, "mesh-slepian", f"MeshSlepianFunctions {r} of {case['name']} with N={N}")
        ctx.same(M.MeshSlepianFunctions(m, extra_args=[r]).coefficients, s.coefficients, "extra-args", f"MeshSlepianFunctions(extra_args=[{r}])")
    inside = np.asarray(m.mesh_region).astype(bool)
    masked = proj(np.where(inside, m.basis_functions.T @ proj(field), 0))
    ctx.close(M.MeshSlepianField(m).coefficients, np.asarray(ms.slepian_functions)[:N] @ masked, 1e-9 * np.abs(masked).max(), "mesh-slepian", f"MeshSlepianField of {case['name']}")
    for B, j_min in ((3, 0), (2, 1), (3, 2)):
        J = j_max(B, nb, j_min)
        kap = sleplet.wavelet_methods.create_kappas(nb, B, j_min)
        for j in [None, rng.randrange(J - j_min + 1)]:
            w = M.MeshSlepianWavelets(m, B=B, j_min=j_min, j=j)
            ctx.close(w.coefficients, kap[0 if j is None else j + 1], 1e-15, "mesh-wavelet", f"MeshSlepianWavelets {B} {j_min} {j} of {case['name']}")
            ctx.close(w.wavelets, kap, 1e-15, "mesh-wavelet", f"all MeshSlepianWavelets {B} {j_min} of {case['name']}")
