"""C24: computations stay in bounds and finite."""

import math
import os
import random
import warnings

import numpy as np

import c22
import childlib as ch
import core
import funcs as fc
import meshlib as ml
import oracle as o
import plotlib
import regions as rg

RULE = "an evaluation is non-trivial when the kernel was run in another mode, or a computation was given a limit value; distinct by region, band-limit and computation"
REQUIRED = {"bounds": 20, "threads": 40, "interpreted": 5, "uninitialised": 80, "finite": 400, "no-invalid-operation": 400}
PI = float(np.pi)


def cases(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(2 * k):
        out.append({"kind": "kernel", "regs": limit_boxes(rng, 7, 1 if tier == "quick" else i % 4 + 1) + [{"L": rng.randint(2, 9), **rg.box(rng)} for _ in range(5)], "w": 9})
    for i in range(2 * k):
        out.append({"kind": "memory", "of": {"kind": ["sphere", "mesh"][i % 2], "sub": rng.randrange(10**9), "type": ["box", "mask", "polar", "gap"][i // 2 % 4], "name": rng.choice(ml.NAMES)}, "w": 7})
    for i in range(4 * k):
        out.append({"kind": "regions", "type": ["polar", "gap", "box", "mask"][i % 4], "sub": rng.randrange(10**9), "w": 3})
    for _ in range(2 * k):
        out.append({"kind": "functions", "sub": rng.randrange(10**9), "w": 2})
        out.append({"kind": "plots", "sub": rng.randrange(10**9), "w": 2})
    for i in range(2 * k):
        out.append({"kind": "mesh", "name": rng.choice(ml.NAMES), "sub": rng.randrange(10**9), "w": 2})
    return out


def limit_boxes(rng, n, L0=1):
    d = rng.choice([1e-3, 1e-2])
    b = [{"theta_min": 0.0, "theta_max": d, "phi_min": 0.0, "phi_max": PI}, {"theta_min": PI - d, "theta_max": PI, "phi_min": 0.0, "phi_max": PI},
         {"theta_min": 0.0, "theta_max": PI, "phi_min": 0.0, "phi_max": d}, {"theta_min": 0.0, "theta_max": PI, "phi_min": 2 * PI - d, "phi_max": 2 * PI},
         {"theta_min": d, "theta_max": PI, "phi_min": 0.0, "phi_max": 2 * PI}, {"theta_min": 0.0, "theta_max": PI, "phi_min": d, "phi_max": 2 * PI},
         {"theta_min": 0.0, "theta_max": PI / 2, "phi_min": 0.0, "phi_max": PI}, {"theta_min": PI / 2, "theta_max": PI, "phi_min": PI, "phi_max": 2 * PI},
         {"theta_min": 0.0, "theta_max": PI - d, "phi_min": 0.0, "phi_max": 2 * PI - d}]
    return [{"type": "box", "L": rng.choice([L0, L0 + 1, L0 + 2, L0 + 3]), **x} for x in rng.sample(b, n)]


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case.get("sub", 0)))


# ---------------------------------------------------------------- the compiled kernel
def child_boxes(regs):
    out = []
    for r in regs:
        s = rg.build(r)
        out.append({"N": s.N, "eigenvalues": np.asarray(s.eigenvalues), "eigenvectors": np.asarray(s.eigenvectors)})
    return out


def modes(regs):
    small = [r for r in regs if r["L"] <= 4]
    return {"1 thread": (regs, {"NUMBA_NUM_THREADS": 1}), "2 threads": (regs, {"NUMBA_NUM_THREADS": 2}), "3 threads": (regs, {"NUMBA_NUM_THREADS": 3}),
            "8 threads": (regs, {"NUMBA_NUM_THREADS": 8}), "bounds-checked": (regs, {"NUMBA_NUM_THREADS": 2, "NUMBA_BOUNDSCHECK": 1}),
            "interpreted": (small, {"NUMBA_DISABLE_JIT": 1}), "memory filled": (regs, {"MALLOC_PERTURB_": 85}), "memory filled otherwise": (regs, {"MALLOC_PERTURB_": 170})}


def do_kernel(ctx, case, rng):
    regs = case["regs"]
    hs, out = {}, {}
    for i, (mode, (rs, env)) in enumerate(modes(regs).items()):
        hs[mode] = rs, ch.start(ctx, "c24", "child_boxes", {"regs": rs}, data=ctx.scratch / f"mode{i}", env=env)
    for mode, (rs, h) in hs.items():
        rc, res, tail = ch.finish(h)
        mon = {"bounds-checked": "bounds", "interpreted": "interpreted"}.get(mode, "uninitialised" if "memory" in mode else "threads")
        if res is None or "error" in res:
            if res and (res["mismatch"] or res["infra"]):
                raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
            ctx.check(False, mon, f"{mode}: {rc} {res and res['error']} {tail[-200:]}")
            continue
        out[mode] = dict(zip([str(r) for r in rs], res["ok"], strict=True))
    base = out.get("1 thread")
    if base is None:
        return
    for mode, res in out.items():
        mon = {"bounds-checked": "bounds", "interpreted": "interpreted"}.get(mode, "uninitialised" if "memory" in mode else "threads")
        for r in regs:
            if str(r) not in res:
                continue
            a, b, msg = res[str(r)], base[str(r)], f"{rg.describe(r)} L={r['L']}, {mode}"
            ctx.check(a["N"] == b["N"], mon, f"{msg}: N")
            if mon in ("bounds", "interpreted"):  # other machine code: equal to rounding
                ctx.close(a["eigenvalues"], b["eigenvalues"], 1e-11, mon, f"{msg}: eigenvalues")
                D = o.kernel(r["L"], o.boxes_of(r))
                V = a["eigenvectors"]
                ctx.close(np.einsum("pa,ab,pb->p", V.conj(), D, V).real, a["eigenvalues"], 1e-9, mon, f"{msg}: concentration of the functions")
            else:
                ctx.same(a["eigenvalues"], b["eigenvalues"], mon, f"{msg}: eigenvalues")
                ctx.same(a["eigenvectors"], b["eigenvectors"], mon, f"{msg}: functions")
            ctx.check(np.isfinite(a["eigenvalues"]).all() and np.isfinite(a["eigenvectors"]).all(), "finite", f"{msg}")
            ctx.nontrivial(f"kernel {msg}")
    ctx.sample(f"kernel for {len(regs)} boxes in {len(out)} modes: {sorted(out)}")


# ---------------------------------------------------------------- memory that was never written
def do_memory(ctx, case, rng):
    """The same operations while the allocator hands out memory full of rubbish."""
    got = {}
    hs = []
    for i, fill in enumerate((None, 85, 170)):
        env = {"MALLOC_PERTURB_": fill, "PYTHONMALLOC": "malloc" if fill else None}
        hs.append((fill, ch.start(ctx, "c22", "child_digests", {"case": case["of"], "seed": 1}, data=ctx.scratch / f"fill{i}", env=env)))
    for fill, h in hs:
        rc, res, tail = ch.finish(h)
        if res is None or "error" in res:
            if res and (res["mismatch"] or res["infra"]):
                raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
            ctx.check(False, "uninitialised", f"memory filled with {fill}: {rc} {res and res['error']} {tail[-300:]}")
            return
        got[fill] = res["ok"]
    _, ops = c22.build_ops(case["of"])
    for fill in (85, 170):
        for i, (d, v) in got[fill].items():
            d0, v0 = got[None][i]
            ctx.check(d == d0 or c22.alike(v, v0), "uninitialised", f"{case['of']}: {ops[i][0]} depends on the content of fresh memory: {d} {d0}")
            ctx.nontrivial(f"memory {case['of']['sub']} {ops[i][0]}")
    ctx.sample(f"{len(ops)} operations of {case['of']} with fresh memory filled in two ways")


# ---------------------------------------------------------------- finite at the limits
BAD = ("divide by zero", "invalid value", "overflow", "Mean of empty slice", "Casting complex")


def watched(ctx, msg, fn, nan_ok=False):
    """Run fn; no invalid operation in any thread, and a finite result."""
    with warnings.catch_warnings(record=True) as rec, np.errstate(all="warn", under="ignore"):
        warnings.simplefilter("always")
        r = ctx.accepts(fn, "no-invalid-operation", msg)
    bad = [w for w in rec if issubclass(w.category, RuntimeWarning) and any(b in str(w.message) for b in BAD[:4])]
    for w in bad[:2]:
        ctx.violate("no-invalid-operation", f"{msg}: {w.message} at {w.filename}:{w.lineno}")
    if r is not None:
        for x in c22.leaves(r):
            if not isinstance(x, str) and x.dtype.kind in "fc":
                ok = np.isfinite(x).all() or (nan_ok and not np.isinf(x).any())
                ctx.check(ok, "finite", lambda: f"{msg}: {int((~np.isfinite(x)).sum())} of {x.size} values are not finite")  # noqa: B023
        ctx.nontrivial(msg)
    return r


def limit_regions(rng, kind):
    if kind == "polar":
        return [{"type": "polar", "L": L, "theta_max": t} for L, t in ((1, 0.001), (1, PI - 1e-6), (2, 1e-4), (2, PI - 1e-3), (3, PI / 2), (rng.randint(2, 5), rng.uniform(0.01, 3.1)), (5, 0.01), (4, PI - 1e-9))]
    if kind == "gap":
        return [{"type": "gap", "L": L, "theta_max": t} for L, t in ((1, 0.001), (1, PI / 2 - 1e-6), (2, 1e-4), (2, PI / 2 - 1e-3), (rng.randint(2, 5), rng.uniform(0.01, 1.5)), (5, 0.01))]
    if kind == "box":
        return limit_boxes(rng, 7)
    out = rg.mask_regions(rng, 5, l_max=4)
    return out


def do_regions(ctx, case, rng):
    import sleplet

    S, W, Z = sleplet.slepian_methods, sleplet.wavelet_methods, sleplet.noise
    for r in limit_regions(rng, case["type"]):
        msg = f"{rg.describe(r)} L={r['L']}"
        L = r["L"]
        s = watched(ctx, f"{msg}: solve", lambda: rg.build(r))
        if s is None:
            continue
        N = s.N
        g = np.random.default_rng(rng.randrange(10**6))
        flm = o.random_flm(g, L * L)
        zero = np.zeros(L * L, complex)
        kap = watched(ctx, f"{msg}: kappas", lambda: W.create_kappas(L * L, 2, 0)) if L > 1 else None
        for what, x in (("a signal", flm), ("zero", zero)):
            fp = watched(ctx, f"{msg}: analysis of {what}", lambda: S.slepian_forward(L, s, flm=x))
            f = watched(ctx, f"{msg}: synthesis of {what}", lambda: S.slepian_inverse(fp, L, s))
            if f is None:
                continue
            watched(ctx, f"{msg}: integration of {what}", lambda: S.slepian_forward(L, s, f=f))
            if N > 0:
                watched(ctx, f"{msg}: regional integration of {what}", lambda: S.slepian_forward(L, s, f=f, mask=sleplet._mask_methods.create_mask_region(L, s.region)) if r["type"] != "mask" else None)
                watched(ctx, f"{msg}: thresholding of {what}", lambda: Z.slepian_function_hard_thresholding(L, fp, 0.1, 2, s))
                if kap is not None:
                    wc = watched(ctx, f"{msg}: wavelets of {what}", lambda: W.slepian_wavelet_forward(fp, kap, N))
                    watched(ctx, f"{msg}: inverse wavelets of {what}", lambda: W.slepian_wavelet_inverse(wc, kap, N))
        reg = rg.region_of(r)
        if r["type"] != "mask" and N > 0:
            for name in ("SlepianDiracDelta", "SlepianIdentity", "Slepian"):
                h = watched(ctx, f"{msg}: {name}", lambda: fc.fn(name)(L, region=reg))
                if h is not None:
                    for al, be in ((0.0, 0.0), (0.0, PI), (2 * PI, PI / 2)):
                        watched(ctx, f"{msg}: {name} translated to {al:.2f}, {be:.2f}", lambda: h.translate(al, be, shannon=N))
                if name == "Slepian":  # SNR of a vanishing signal is undefined
                    watched(ctx, f"{msg}: {name} with noise", lambda: fc.fn(name)(L, region=reg, noise=float(rng.choice([-100, 0, 100]))))
        if r["type"] != "mask":
            watched(ctx, f"{msg}: masked function", lambda: fc.fn("Gaussian")(L, region=reg))
    ctx.sample(f"limits of {case['type']}")


def do_functions(ctx, case, rng):
    for L in (1, 2, 3, rng.randint(4, 10), rng.randint(11, 24)):
        sets = [("Gaussian", {"sigma": s}) for s in (1e-3, 1e3)] + [("HarmonicGaussian", {"l_sigma": a, "m_sigma": b}) for a, b in ((1e-3, 1e-3), (1e3, 1e-3), (1e-2, 1e3))]
        sets += [("SquashedGaussian", {"t_sigma": a, "freq": b}) for a, b in ((1e-4, 0.1), (1e3, 1e3), (1, 0))]
        sets += [("ElongatedGaussian", {"t_sigma": a, "p_sigma": b}) for a, b in ((1e-4, 1e-4), (1e3, 1e-3), (1e-3, 1e3))]
        sets += [("DiracDelta", {}), ("Identity", {}), ("SphericalHarmonic", {"ell": L - 1, "m": 1 - L}), ("SphericalHarmonic", {"ell": L - 1, "m": L - 1})]
        if L > 1:
            for B in (2, 3, 5):
                J = math.ceil(math.log(L) / math.log(B) - 1e-12)
                for j_min in {0, max(J - 1, 0)}:
                    sets += [("AxisymmetricWavelets", {"B": B, "j_min": j_min})]
                    sets += [("AxisymmetricWavelets", {"B": B, "j_min": j_min, "j": j}) for j in {0, J - j_min} if j >= 0]
                    for spin in {0, 1, min(L - 1, 2)}:
                        sets += [("Ridgelets", {"B": B, "j_min": j_min, "spin": spin})]
                        sets += [("Ridgelets", {"B": B, "j_min": j_min, "spin": spin, "j": j}) for j in {0, J - j_min} if j >= 0]
        for name, kw in sets:
            msg = f"{name}({L}, {kw})"
            f = watched(ctx, msg, lambda: fc.fn(name)(L, **kw))
            if f is None:
                continue
            if rng.random() < 0.3:
                spin = getattr(f, "spin", 0)
                al, be = rng.choice([(0.0, 0.0), (0.0, PI), (2 * PI, PI), (PI, 1e-9)])
                watched(ctx, f"{msg} translated", lambda: f.translate(al, be))
                watched(ctx, f"{msg} rotated", lambda: f.rotate(al, be, gamma=rng.choice([0.0, PI, 2 * PI])))
                watched(ctx, f"{msg} smoothed", lambda: fc.fn(name)(L, smoothing=rng.choice([1, 100]), **kw))
                if np.abs(f.coefficients).max() > 0 and spin == 0:
                    watched(ctx, f"{msg} with noise", lambda: fc.fn(name)(L, noise=float(rng.choice([-300, -100, 0, 100, 300])), **kw))
    ctx.sample("functions with limit parameters")


def do_plots(ctx, case, rng):
    import sleplet

    P = sleplet.plotting
    for L in (1, 2, rng.randint(3, 6)):
        g = np.random.default_rng(rng.randrange(10**6))
        shape = (L + 1, 2 * L)
        fields = {"zero": np.zeros(shape, complex), "constant": np.full(shape, 3.0 + 0j), "negative constant": np.full(shape, -2.0 + 0j), "tiny": 1e-300 * g.standard_normal(shape) + 0j,
                  "huge": 1e200 * (1 + g.random(shape)) + 0j, "small spread": 1 + 1e-12 * g.random(shape) + 0j, "complex": o.synthesise(o.random_flm(g, L * L), L)}
        for name, f in fields.items():
            for pt in ("real", "imag", "abs", "sum"):
                if name == "huge" and pt in ("abs", "sum"):
                    continue  # the squares overflow
                norm, region = rng.random() < 0.7, rng.random() < 0.3
                reg = rg.region_of({"type": "polar", "theta_max": 1.0}) if region else None

                def show():
                    with plotlib.capture() as s:
                        P.PlotSphere(f, L, "n", normalise=norm, plot_type=pt, upsample=False, region=reg).execute()  # noqa: B023
                    return s

                # pixels outside of a region have no value
                watched(ctx, f"plot of {name} L={L} {pt} normalise={norm} region={region}", show, nan_ok=region)
        up = rng.choice(["zero", "constant", "complex"])

        def show_up():
            with plotlib.capture() as s:
                P.PlotSphere(fields[up], L, "n", upsample=True).execute()  # noqa: B023
            return s

        if L == 2:
            watched(ctx, f"upsampled plot of {up} L={L}", show_up)
        watched(ctx, f"resolution L={L}", lambda: sleplet.plot_methods.calc_plot_resolution(L))
    for name in ("Gaussian", "Identity", "DiracDelta", "HarmonicGaussian"):
        f = fc.fn(name)(2)
        watched(ctx, f"amplitude of {name}", lambda: sleplet.plot_methods.find_max_amplitude(f))
        f = fc.fn(name)(3, noise=3.0)
        watched(ctx, f"noise amplitude of {name}", lambda: sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots(f))


def do_mesh(ctx, case, rng):
    import sleplet

    for nb in (rng.randint(6, 9), rng.randint(10, 30)):
        msg = f"{case['name']} {nb}"
        m = watched(ctx, f"{msg}: basis", lambda: ml.mesh(case["name"], nb))
        if m is None:
            continue
        s = watched(ctx, f"{msg}: Slepian functions", lambda: sleplet.meshes.MeshSlepian(m))
        z = np.zeros(len(m.vertices))
        u = watched(ctx, f"{msg}: analysis of zero", lambda: sleplet.harmonic_methods.mesh_forward(m, z))
        watched(ctx, f"{msg}: synthesis of zero", lambda: sleplet.harmonic_methods.mesh_inverse(m, u))
        if s is not None and s.N > 0:
            watched(ctx, f"{msg}: Slepian analysis of zero", lambda: sleplet.slepian_methods.slepian_mesh_forward(s, u=z))
            watched(ctx, f"{msg}: regional analysis", lambda: sleplet.slepian_methods.slepian_mesh_forward(s, u=z + 1.0, mask=True))
        for name in fc.MESH:
            if s is None or (s.N == 0 and "Slepian" in name):
                continue
            watched(ctx, f"{msg}: {name}", lambda: fc.meshfn(name)(m, **({"B": 2, "j_min": 0} if "Wavelet" in name else {})))
            watched(ctx, f"{msg}: {name} in the region", lambda: fc.meshfn(name)(m, region=True) if "Slepian" not in name else None)

        def show():
            with plotlib.capture() as x:
                for f, norm, reg in ((z, True, False), (z + 2, True, True), (z - 1, False, True), (np.arange(len(z)) * 1.0, True, True)):
                    sleplet.plotting.PlotMesh(m, "n", f, normalise=norm, region=reg).execute()
            return x

        watched(ctx, f"{msg}: plots", show, nan_ok=True)
