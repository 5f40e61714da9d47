"""C11: hard thresholding zeroes exactly the samples below the threshold."""

import numpy as np

import core
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "non-trivial when the threshold separates the samples of at least one scale in kept and zeroed ones; distinct by variant, basis, signal and threshold"
REQUIRED = {"harmonic": 20, "scaling-untouched": 20, "slepian-wavelets": 15, "slepian-function": 15, "mesh": 10, "extremes": 20}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 200):
        out.append({"kind": "harmonic", "L": rng.randint(2, 14) if i % 6 else rng.choice([1, 16, 32, rng.randint(15, 50), rng.randint(51, 100)]), "J": rng.randint(1, 4), "n_sigma": rng.choice([0, 1, 2, 3, 5]), "s": rng.randrange(10**6), "pix": rng.random() < 0.3})
    for i in range(24 if q else 200):
        r = [rg.polar(rng, gap=False), rg.polar(rng, gap=True), rg.box(rng)][i % 3]
        out.append({"kind": "slepian", "L": rng.randint(4, 9), "region": r, "J": rng.randint(1, 4), "n_sigma": rng.choice([0, 1, 2, 3, 5]), "s": rng.randrange(10**6), "w": 3})
    for i in range(16 if q else 100):
        out.append({"kind": "mesh", "mesh": rng.choice(ml.SMALL), "nb": rng.randint(15, 50), "J": rng.randint(1, 4), "n_sigma": rng.choice([0, 1, 2, 3]), "s": rng.randrange(10**6)})
    for _ in range(1 if q else 5):
        out.append(treelib.cases_on(rng, 6, lambda m: [{"kind": "mesh", "mesh": m["name"], "nb": rng.randint(4, 18), "J": rng.randint(1, 4), "n_sigma": rng.choice([0, 1, 2, 3]), "s": rng.randrange(10**6)}]))
    for i in range(10 if q else 60):
        out.append({"kind": "pixels", "s": rng.randrange(10**6), "n_sigma": rng.choice([0, 1, 2, 3])})
    for c in out:
        for d in c.get("cases", [c]):
            d["u"] = rng.choice([1.0, 1.0, 1.0, 1e-11, 1e-6, 1e7])
    return out


def thr(f, t):
    return np.where(np.abs(f) >= t, f, 0)


def safe_sigma(mag, frac, n_sigma):
    """A noise level such that no magnitude is close to the threshold."""
    m = np.sort(np.abs(mag).ravel())
    if len(m) < 3 or n_sigma == 0:
        return 1.0
    k = int(frac * (len(m) - 2))
    # a wide enough gap near the wanted quantile
    gaps = np.diff(m)
    near = np.argsort(np.abs(np.arange(len(gaps)) - k))
    for i in near:
        if gaps[i] > 1e-6 * m[-1]:
            return (m[i] + m[i + 1]) / 2 / n_sigma
    return (m[-1] or 1.0) * 3 / n_sigma


def run_case(ctx, case):
    import pyssht as ssht
    import sleplet

    N = sleplet.noise
    rng = np.random.default_rng(case["s"])
    k, ns = case["kind"], case["n_sigma"]
    if k == "pixels":
        if not hasattr(N, "_perform_hard_thresholding"):
            raise core.Gone("no _perform_hard_thresholding")
        f = rng.standard_normal((9, 16)) + 1j * rng.standard_normal((9, 16))
        f[0, :4] = [2, -2, 2j, 0]  # exactly on the threshold for 1 * 2
        for sig in (0.0, 1.0, 2.0, 1e9, rng.random((9, 16)) * 2):
            for fun in (f, f.real.copy()):
                keep = fun.copy()
                got = N._perform_hard_thresholding(fun, sig, ns)
                ctx.close(got, thr(fun, ns * sig), 0, "pixels", f"n_sigma={ns}")
                ctx.same(fun, keep, "pixels", "input changed")
        ctx.nontrivial(f"pixels {ns} {case['s']}")
        return
    J = case["J"]
    u = case["u"]  # the size of the signals
    if k == "harmonic":
        L = case["L"]
        c = np.array([o.random_flm(rng, L * L) for _ in range(J + 1)]) * u
        if case["s"] % 4 == 0:
            c[-1] = 0
        F = [o.synthesise(x, L) for x in c]
        sig = np.array([safe_sigma(F[j + 1], rng.uniform(0.1, 0.95), ns) for j in range(J)])
        if case["pix"]:  # a level per pixel
            sig = sig[:, None, None] * np.where(rng.random((J, *F[0].shape)) < 0.5, 1e-6, 1)
        msg = f"L={L} J={J} n_sigma={ns} size={u} per pixel {case['pix']}"
        inp = c.copy()
        out = N.harmonic_hard_thresholding(L, inp, sig, ns)
        ctx.check(out.shape == c.shape, "harmonic", f"{msg}: shape")
        ctx.same(out[0], c[0], "scaling-untouched", msg)
        for j in range(J):
            want = ssht.forward(thr(F[j + 1], ns * sig[j]).astype(complex), L, Method="MWSS")
            ctx.close(out[j + 1], want, 1e-9 * (u + np.abs(want).max()), "harmonic", f"{msg} scale {j}")
            z = np.abs(F[j + 1]) >= ns * sig[j]
            if z.any() and not z.all():
                ctx.nontrivial(f"{msg} {case['s']} {j}")
        longer = np.concatenate([sig, np.full((2, *sig.shape[1:]), 1e9 * u)])
        ctx.same(N.harmonic_hard_thresholding(L, c.copy(), longer, ns), out, "harmonic", f"{msg}: levels of more scales")
        ctx.close(N.harmonic_hard_thresholding(L, c.copy(), np.zeros(J), ns), c, 1e-9 * (u + np.abs(c).max()), "extremes", f"{msg}: zero noise")
        big = N.harmonic_hard_thresholding(L, c.copy(), np.full(J, 1e9 * u), max(ns, 1))
        ctx.close(big[1:], 0 * c[1:], 1e-12 * u, "extremes", f"{msg}: huge noise")
        ctx.same(big[0], c[0], "scaling-untouched", f"{msg}: huge noise")
    elif k == "slepian":
        L = case["L"]
        s = rg.build({**case["region"], "L": L})
        n = s.N
        if n == 0:
            raise core.Skip("empty region")
        V = np.asarray(s.eigenvectors)[:n]
        S = np.array([o.synthesise(v, L) for v in V])
        W = o.pixel_weights(L)
        msg = f"{rg.describe(case['region'])} L={L} N={n} J={J} n_sigma={ns} size={u}"

        def analyse(f):
            return np.einsum("pab,ab->p", S.conj(), f * W)

        c = np.array([o.random_flm(rng, n) for _ in range(J)]) * u
        F = np.tensordot(c, S, axes=1)
        if case["s"] % 4 == 0:
            c = c.real.copy()
            F = np.tensordot(c, S, axes=1)
        # one level per scale and pixel, as computed for wavelets
        base = [safe_sigma(F[j], rng.uniform(0.1, 0.95), ns) for j in range(J)]
        for per_pixel in (False, True):
            sig = np.array(base)
            if per_pixel:
                sig = np.array([b * np.where(rng.random(F[0].shape) < 0.5, 1e-6, 1) for b in base])
            out = N.slepian_wavelet_hard_thresholding(L, c.copy(), sig, ns, s)
            ctx.check(out.shape == c.shape, "slepian-wavelets", f"{msg}: shape")
            # the levels of scales whose coefficients were left out as they vanish
            longer = np.concatenate([sig, np.full((2, *sig.shape[1:]), 1e9 * u)])
            ctx.same(N.slepian_wavelet_hard_thresholding(L, c.copy(), longer, ns, s), out, "slepian-wavelets", f"{msg}: levels of more scales, per pixel {per_pixel}")
            for j in range(J):
                want = analyse(thr(F[j], ns * sig[j]))
                ctx.close(out[j], want, 1e-9 * (u + np.abs(want).max()), "slepian-wavelets", f"{msg} scale {j} per pixel {per_pixel}")
                z = np.abs(F[j]) >= ns * sig[j]
                if z.any() and not z.all():
                    ctx.nontrivial(f"{msg} {case['s']} {j}")
        for j in range(J):
            keep = c[j].copy()
            got = N.slepian_function_hard_thresholding(L, c[j], base[j], ns, s)
            want = analyse(thr(F[j], ns * base[j]))
            ctx.close(got, want, 1e-9 * (u + np.abs(want).max()), "slepian-function", f"{msg} signal {j}")
            ctx.same(c[j], keep, "slepian-function", f"{msg}: input changed")
        big = N.slepian_wavelet_hard_thresholding(L, c.copy(), np.full(J, 1e9 * u), max(1, ns), s)
        ctx.close(big, 0 * c, 1e-12 * u, "extremes", f"{msg}: huge noise")
        ctx.close(N.slepian_function_hard_thresholding(L, c[0], 1e9 * u, max(1, ns), s), 0 * c[0], 1e-12 * u, "extremes", f"{msg}: huge noise")
        zero = N.slepian_wavelet_hard_thresholding(L, c.copy(), np.zeros(J), ns, s)
        ctx.close(zero, np.array([analyse(x) for x in F]), 1e-9 * (u + np.abs(F).max()), "extremes", f"{msg}: zero noise")
    elif k == "mesh":
        m = ml.mesh(case["mesh"], case["nb"])
        ms = sleplet.meshes.MeshSlepian(m)
        n = ms.N
        if n == 0:
            raise core.Skip("empty region")
        S = np.asarray(ms.slepian_functions)[:n] @ np.asarray(m.basis_functions)
        msg = f"{case['mesh']} b={case['nb']} N={n} J={J} n_sigma={ns} size={u}"
        c = rng.standard_normal((J, n))
        if case["s"] % 3 == 0:
            c = c + 1j * rng.standard_normal((J, n))
        c = c * u
        F = c @ S
        base = [safe_sigma(F[j], rng.uniform(0.1, 0.95), ns) for j in range(J)]
        for per_vertex in (False, True):
            sig = np.array(base)
            if per_vertex:
                sig = np.array([b * np.where(rng.random(F[0].shape) < 0.5, 1e-6, 1) for b in base])
            out = N.slepian_mesh_hard_thresholding(ms, c.copy(), sig, ns)
            longer = np.concatenate([sig, np.full((2, *sig.shape[1:]), 1e9 * u)])
            ctx.same(N.slepian_mesh_hard_thresholding(ms, c.copy(), longer, ns), out, "mesh", f"{msg}: levels of more scales, per vertex {per_vertex}")
            for j in range(J):
                want = S @ thr(F[j], ns * sig[j])
                ctx.close(out[j], want, 1e-9 * (u + np.abs(want).max()), "mesh", f"{msg} scale {j} per vertex {per_vertex}")
                z = np.abs(F[j]) >= ns * sig[j]
                if z.any() and not z.all():
                    ctx.nontrivial(f"{msg} {case['s']} {j}")
        ctx.close(N.slepian_mesh_hard_thresholding(ms, c.copy(), np.zeros(J), ns), c, 1e-9 * u, "extremes", f"{msg}: zero noise")
        ctx.close(N.slepian_mesh_hard_thresholding(ms, c.copy(), np.full(J, 1e9 * u), max(ns, 1)), 0 * c, 1e-12 * u, "extremes", f"{msg}: huge noise")
    else:
        raise core.Skip(k)
