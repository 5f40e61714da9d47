"""C28: denoising and wavelet covariance follow their theory from end to end."""

import random

import numpy as np
from scipy.stats import norm

import core
import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "a pipeline is non-trivial when its threshold keeps some samples and zeroes others, a covariance when more than one scale is not zero; distinct by basis, signal, wavelets and levels"
REQUIRED = {"harmonic-covariance": 3, "slepian-covariance": 6, "mesh-covariance": 6, "harmonic-noise-level": 10, "harmonic-pipeline": 8, "slepian-pipeline": 8, "mesh-pipeline": 6,
            "harmonic-improves": 6, "slepian-improves": 2, "mesh-improves": 2, "nothing-removed": 8, "false-detections": 6}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    k = 1 if q else 12
    for i in range(4 * k):
        out.append({"kind": "harmonic", "sub": rng.randrange(10**9), "L": rng.randint(8, 14), "w": 2})
    for i in range(2 * k):
        out.append({"kind": "level", "sub": rng.randrange(10**9), "L": [rng.randint(24, 40), rng.randint(40, 64)][i % 2], "w": 3})
    for i in range(8 * k):
        r = [rg.polar(rng, gap=False), rg.polar(rng, gap=True), rg.box(rng), {**rg.mask_regions(rng, 1)[0], "shape": rng.choice(["blob", "two", "cap"])}][i % 4]
        out.append({"kind": "slepian", "sub": rng.randrange(10**9), "region": {**r, "L": rng.randint(5, 8)}, "w": 4})
    for i in range(4 * k):
        out.append({"kind": "mesh", "sub": rng.randrange(10**9), "name": (ml.SMALL if q else ml.NAMES)[i % (3 if q else 6)], "nb": rng.randint(25, 60), "w": 2})
    for i in range(1 if q else 5):
        out.append(treelib.cases_on(rng, 6, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(12, 25), "sub": rng.randrange(10**9)}]))
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]), np.random.default_rng(case["sub"]))


def power(x):
    return float((np.abs(x) ** 2).sum())


def scales(rng, top):
    B = rng.choice([2, 2, 3, 4])
    j_min = rng.randint(0, max(0, min(3, int(np.log(top) / np.log(B)) - 1)))
    return B, j_min


def level(rng, ratios):
    """A multiple of the noise level that no sample is close to."""
    r = np.sort(np.concatenate([np.ravel(x) for x in ratios]))
    r = r[np.isfinite(r)]
    for n in [1, 2, 3] if rng.random() < 0.7 else [rng.uniform(0.3, 3.5) for _ in range(9)]:
        i = np.searchsorted(r, n)
        if all(abs(x - n) > 1e-7 * (1 + n) for x in r[max(0, i - 1) : i + 1]):
            yield n


def cut(f, t):
    return np.where(np.abs(f) >= t, f, 0)


def ratio(f, s):
    with np.errstate(all="ignore"):
        return np.abs(f) / s


def improves(ctx, clean, noisy, denoised, monitor, what):
    """Much noise and a threshold of two or three deviations: closer to the signal than before."""
    before, after = power(noisy - clean), power(denoised - clean)
    ctx.check(after < before, monitor, lambda: f"{what}: denoising leaves an error of {after} from {before} (signal of {power(clean)})")


# ---------------------------------------------------------------- harmonic
def do_harmonic(ctx, case, rng, g):
    import pyssht as ssht
    import sleplet

    W, N, F = sleplet.wavelet_methods, sleplet.noise, sleplet.functions
    L = case["L"]
    B, j_min = scales(rng, L)
    aw = F.AxisymmetricWavelets(L, B=B, j_min=j_min)
    psi = np.asarray(aw.wavelets)
    J = len(psi)
    what = f"L={L} B={B} j_min={j_min}"
    # covariance: the response to every coefficient on its own
    th, ph = o.grid(L)
    at = [(rng.randrange(L + 1), rng.randrange(2 * L)) for _ in range(6)]
    Y = o.ylm(L, np.array([th[a] for a, _ in at]), np.array([ph[b] for _, b in at]))
    total = np.zeros((J, len(at)))
    for i in range(L * L):
        e = np.zeros(L * L, complex)
        e[i] = 1
        w = np.asarray(W.axisymmetric_wavelet_forward(L, e, psi))
        total += np.abs(w @ Y.T) ** 2
    theory = (np.abs(psi) ** 2).sum(axis=1)
    ctx.close(total, np.repeat(theory[:, None], len(at), 1), 1e-10 * (1 + theory.max()), "harmonic-covariance", f"{what}: variance of the wavelet coefficients of white noise")
    snr = rng.choice([-10, -8, -5, -3])
    earthlib.populate(ctx, case["sub"])
    signals = [("Earth", lambda **k: F.Earth(L, **k)), ("smooth Earth", lambda **k: F.Earth(L, smoothing=2, **k)), ("Gaussian", lambda **k: F.Gaussian(L, sigma=rng0, **k)), ("Delta", lambda **k: F.DiracDelta(L, **k))]
    rng0 = rng.uniform(1, 5)
    for name, make in signals:
        clean, noisy = make(), make(noise=snr)
        c, x = np.asarray(clean.coefficients), np.asarray(noisy.coefficients)
        sigma = np.sqrt(10 ** (-snr / 10) * power(c) / L**2)
        lev = sigma * np.sqrt(theory[1:])
        if hasattr(N, "_compute_sigma_j"):
            got = N._compute_sigma_j(c, psi[1:], snr)
            ctx.close(got, lev, 1e-11 * (1 + lev.max()), "harmonic-noise-level", f"{name} {what} SNR={snr}")
            lev = got
        # the steps of our own
        ell, _ = o.elm(L)
        f0 = psi[:, ell * ell + ell] * np.sqrt(4 * np.pi / (2 * ell + 1))
        fields = [o.synthesise(f0[j].conj() * x, L) for j in range(1, J)]
        for n in level(rng, [ratio(f, s) for f, s in zip(fields, lev)]):
            w = W.axisymmetric_wavelet_forward(L, noisy.coefficients, psi)
            got = W.axisymmetric_wavelet_inverse(L, N.harmonic_hard_thresholding(L, w, lev, n), psi)
            want = f0[0] * f0[0].conj() * x + sum(f0[j] * ssht.forward(cut(fields[j - 1], n * lev[j - 1]).astype(complex), L, Method="MWSS") for j in range(1, J))
            ctx.close(got, want, 1e-9 * np.abs(x).max(), "harmonic-pipeline", f"{name} {what} SNR={snr} n_sigma={n}")
            ctx.close(o.hermitian(got, L), got, 1e-9 * np.abs(x).max(), "harmonic-pipeline", f"{name} {what} SNR={snr}: denoised real signal")
            kept = [np.abs(f) >= n * s for f, s in zip(fields, lev)]
            if any(k.any() and not k.all() for k in kept):
                ctx.nontrivial(f"{name} {what} {snr} {n} {case['sub']}")
            after = N.compute_snr(c, np.asarray(got) - c, "Harmonic")
            ctx.close(after, 10 * np.log10(power(c) / power(want - c)), 1e-6, "harmonic-pipeline", f"{name} {what}: SNR after denoising")
            if n >= 2 and j_min <= 1:
                improves(ctx, c, x, got, "harmonic-improves", f"{name} {what} SNR={snr} n_sigma={n}")
        w = W.axisymmetric_wavelet_forward(L, noisy.coefficients, psi)
        ctx.close(W.axisymmetric_wavelet_inverse(L, N.harmonic_hard_thresholding(L, w, 0 * lev, 3), psi), x, 1e-10 * np.abs(x).max(), "nothing-removed", f"{name} {what}")
    ctx.sample(f"{what} SNR={snr}")


def do_level(ctx, case, rng, g):
    """The levels are those of the noise that the library makes."""
    import sleplet

    W, F = sleplet.wavelet_methods, sleplet.functions
    L = case["L"]
    for _ in range(3):
        B, j_min = scales(rng, L)
        psi = np.asarray(F.AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets)
        snr = rng.choice([-10, -3, 0, 5, 20])
        clean, noisy = F.Gaussian(L, sigma=3.0), F.Gaussian(L, sigma=3.0, noise=snr)
        c = np.asarray(clean.coefficients)
        noise = np.asarray(noisy.coefficients) - c
        sigma = np.sqrt(10 ** (-snr / 10) * power(c) / L**2)
        w = np.asarray(W.axisymmetric_wavelet_forward(L, noise, psi))
        ell, emm = o.elm(L)
        for j in range(len(psi)):
            p2 = np.abs(psi[j][ell * ell + ell]) ** 2 * 4 * np.pi / (2 * ell + 1)
            mean, dev = sigma**2 * p2.sum(), sigma**2 * np.sqrt(2 * (p2**2).sum())
            what = f"L={L} B={B} j_min={j_min} scale {j} SNR={snr}"
            z = (power(w[j]) - mean) / dev if dev else 0
            n_eff = p2.sum() ** 2 / (p2**2).sum() if dev else 0
            ctx.check(abs(z) < 7, "harmonic-noise-level", f"{what}: power of the noise is {power(w[j]) / mean} of the expected one ({z} deviations)")
            if n_eff > 250:
                f = o.synthesise(w[j], L).real / (sigma * np.sqrt((np.abs(psi[j]) ** 2).sum()))
                area = o.pixel_weights(L) * np.ones_like(f)
                share = lambda t: float((area * (np.abs(f) > t)).sum() / area.sum())  # noqa: B023, E731
                ctx.check(abs(share(1) - 2 * norm.sf(1)) < 0.12 and abs(share(2) - 2 * norm.sf(2)) < 0.04 and share(3) < 0.02, "false-detections",
                          f"{what}: {share(1)}, {share(2)}, {share(3)} of the noise are above one, two and three levels")
                ctx.nontrivial(f"level {what}")


# ---------------------------------------------------------------- Slepian
def do_slepian(ctx, case, rng, g):
    import sleplet

    W, N, F, S = sleplet.wavelet_methods, sleplet.noise, sleplet.functions, sleplet.slepian_methods
    reg = case["region"]
    L = reg["L"]
    if reg["type"] == "mask":
        rg.write_mask(reg)
    region = rg.region_of(reg)
    s = S.choose_slepian_method(L, region)
    n = s.N
    if n < 2:
        raise core.Skip("tiny region")
    V = np.asarray(s.eigenvectors)[:n]
    fields = np.array([o.synthesise(v, L) for v in V])
    weights = o.pixel_weights(L)
    B, j_min = scales(rng, n)
    sw = F.SlepianWavelets(L, region=region, B=B, j_min=j_min)
    psi = np.asarray(sw.wavelets)
    what = f"{rg.describe(reg)} L={L} N={n} B={B} j_min={j_min}"
    used = psi[:, :n].any(axis=1)
    # covariance
    total = 0
    for i in range(L * L):
        e = np.zeros(L * L, complex)
        e[i] = 1
        w = W.slepian_wavelet_forward(S.slepian_forward(L, s, flm=e), psi, n)
        total = total + np.array([np.abs(S.slepian_inverse(x, L, s)) ** 2 for x in w])
    sp = S.compute_s_p_omega(L, s)
    theory = np.einsum("jp,pab->jab", psi[:, :n] ** 2, np.abs(sp) ** 2)
    ctx.close(sp, fields, 1e-9, "slepian-covariance", f"{what}: functions at the samples")
    ctx.close(total, theory[used], 1e-9 * (1 + theory.max()), "slepian-covariance", f"{what}: variance of the wavelet coefficients of white noise")
    # denoising
    snr = rng.choice([-10, -8, -5])
    k = rng.randrange(n)
    flm = o.random_flm(g, L * L)
    signals = [("Slepian function", lambda **a: F.Slepian(L, region=region, rank=k, **a)), ("Slepian delta", lambda **a: F.SlepianDiracDelta(L, region=region, **a))]
    for name, make in signals:
        clean, noisy = make(), make(noise=snr)
        c, x = np.asarray(clean.coefficients)[:n], np.asarray(noisy.coefficients)[:n]
        if power(c) == 0:
            continue
        sigma = np.sqrt(10 ** (-snr / 10) * power(c) / L**2)
        lev = sigma * np.sqrt(theory)
        if hasattr(N, "_compute_slepian_sigma_j"):
            got = N._compute_slepian_sigma_j(L, np.asarray(clean.coefficients), psi, snr, s)
            ctx.close(got, lev, 1e-9 * (1 + lev.max()), "slepian-noise-level", f"{name} {what} SNR={snr}")
            lev = got
        wn = psi[used][:, :n] * x.conj()
        wf = np.einsum("jp,pab->jab", wn, fields)
        rt = [ratio(a, b) for a, b in zip(wf, lev[: len(wf)])]
        for ns in level(rng, rt):
            w = W.slepian_wavelet_forward(noisy.coefficients, psi, n)
            ctx.close(w, wn, 1e-12 * (1 + np.abs(x).max()), "slepian-pipeline", f"{name} {what}: wavelet coefficients")
            got = np.asarray(W.slepian_wavelet_inverse(N.slepian_wavelet_hard_thresholding(L, w, lev, ns, s), psi, n))
            wt = np.array([np.einsum("pab,ab->p", fields.conj(), cut(a, ns * b) * weights) for a, b in zip(wf, lev)])
            want = (psi[used][:, :n] * wt.conj()).sum(axis=0)
            ctx.check(got.shape == (n,), "slepian-pipeline", f"{name} {what}: {got.shape} coefficients")
            ctx.close(got, want, 1e-8 * (1 + np.abs(x).max()), "slepian-pipeline", f"{name} {what} SNR={snr} n_sigma={ns}")
            kept = np.array([np.abs(a) >= ns * b for a, b in zip(wf, lev)])
            if kept.any() and not kept.all():
                ctx.nontrivial(f"{name} {what} {snr} {ns} {case['sub']}")
            if ns >= 2 and n >= 12 and power(x - c) > 2 * power(c):
                improves(ctx, c, x, got, "slepian-improves", f"{name} {what} SNR={snr} n_sigma={ns}")
            # the field of the denoised signal
            ctx.close(S.slepian_inverse(got, L, s), np.tensordot(got, fields, axes=1), 1e-9 * (1 + np.abs(got).max()) * n, "slepian-pipeline", f"{name} {what}: denoised field")
        # with no noise level everything is kept: what remains is the error of the pixel sum
        w = W.slepian_wavelet_forward(noisy.coefficients, psi, n)
        got = W.slepian_wavelet_inverse(N.slepian_wavelet_hard_thresholding(L, w, 0 * lev, 3, s), psi, n)
        G = np.einsum("pab,qab,ab->pq", fields.conj(), fields, weights)
        ctx.close(got, np.array([(psi[used][:, p] * (G @ wn.T)[p].conj()).sum() for p in range(n)]), 1e-8 * (1 + np.abs(x).max()), "nothing-removed", f"{name} {what}")
    # regions of the same size in the same process
    if hasattr(N, "_compute_slepian_sigma_j"):
        width, a, b = rng.uniform(1.2, 2.5), rng.uniform(0.1, 1), rng.uniform(1.8, 3)
        e = np.zeros(L * L, complex)
        e[0] = 1
        for lo in (rng.uniform(0, 1), rng.uniform(1.3, 2.2), rng.uniform(2.5, 3.5)):
            box = {"type": "box", "L": L, "theta_min": a, "theta_max": b, "phi_min": lo, "phi_max": lo + width}
            t = S.choose_slepian_method(L, rg.region_of(box))
            power_t = np.array([np.abs(o.synthesise(v, L)) ** 2 for v in np.asarray(t.eigenvectors)[: t.N]])
            ctx.close(N._compute_slepian_sigma_j(L, e, psi, 0, t) ** 2 * L**2, np.einsum("jp,pab->jab", psi[:, : t.N] ** 2, power_t), 1e-9 * (1 + theory.max()),
                      "slepian-covariance", f"{rg.describe(box)} L={L}: levels of one of several regions of the same size")
    # random signals analysed
    f_p = S.slepian_forward(L, s, flm=flm)
    back = W.slepian_wavelet_inverse(W.slepian_wavelet_forward(f_p, psi, n), psi, n)
    ctx.close(back, f_p, 1e-11 * (1 + np.abs(f_p).max()), "nothing-removed", f"random signal {what}")


# ---------------------------------------------------------------- meshes
def do_mesh(ctx, case, rng, g):
    import sleplet

    W, N, M, S = sleplet.wavelet_methods, sleplet.noise, sleplet.meshes, sleplet.slepian_methods
    m = ml.mesh(case["name"], case["nb"])
    ms = M.MeshSlepian(m)
    n, nb = ms.N, len(m.basis_functions)
    if n < 3:
        raise core.Skip("tiny region")
    B, j_min = scales(rng, n)
    w = M.MeshSlepianWavelets(m, B=B, j_min=j_min)
    psi = np.asarray(w.wavelets)
    fields = np.asarray(ms.slepian_functions)[:n] @ np.asarray(m.basis_functions)
    what = f"{case['name']} b={nb} N={n} B={B} j_min={j_min}"
    used = psi[:, :n].any(axis=1)
    total = 0
    for e in np.eye(nb):
        c = W.slepian_wavelet_forward(S.slepian_mesh_forward(ms, u_i=e), psi, n)
        total = total + np.array([np.abs(S.slepian_mesh_inverse(ms, x)) ** 2 for x in c])
    theory = (psi[:, :n] ** 2) @ (fields**2)
    ctx.close(total, theory[used], 1e-9 * (1 + theory.max()), "mesh-covariance", f"{what}: variance of the wavelet coefficients of white noise")
    one = np.zeros(n)
    one[0] = 1
    lev0 = N.compute_slepian_mesh_sigma_j(ms, one, psi, 0)
    ctx.close(lev0**2 * nb, theory, 1e-9 * (1 + theory.max()), "mesh-covariance", f"{what}: levels of a unit signal")
    snr = rng.choice([-10, -8, -5])
    k = rng.randrange(n)
    signals = [("field", lambda **a: M.MeshSlepianField(m, **a)), ("function", lambda **a: M.MeshSlepianFunctions(m, rank=k, **a))]
    for name, make in signals:
        clean, noisy = make(), make(noise=snr)
        c, x = np.asarray(clean.coefficients)[:n], np.asarray(noisy.coefficients)[:n]
        if power(c) == 0:
            continue
        lev = N.compute_slepian_mesh_sigma_j(ms, clean.coefficients, psi, snr)
        ctx.close(lev, np.sqrt(10 ** (-snr / 10) * power(c) / nb * theory), 1e-9 * (1 + np.abs(lev).max()), "mesh-noise-level", f"{name} {what} SNR={snr}")
        wn = psi[used][:, :n] * x
        wf = wn @ fields
        for ns in level(rng, [ratio(a, b) for a, b in zip(wf, lev)]):
            t = N.slepian_mesh_hard_thresholding(ms, W.slepian_wavelet_forward(noisy.coefficients, psi, n), lev, ns)
            got = np.asarray(W.slepian_wavelet_inverse(t, psi, n))
            want = (psi[used][:, :n] * np.array([fields @ cut(a, ns * b) for a, b in zip(wf, lev)])).sum(axis=0)
            ctx.close(got, want, 1e-8 * (1 + np.abs(x).max()), "mesh-pipeline", f"{name} {what} SNR={snr} n_sigma={ns}")
            kept = np.array([np.abs(a) >= ns * b for a, b in zip(wf, lev)])
            if kept.any() and not kept.all():
                ctx.nontrivial(f"{name} {what} {snr} {ns} {case['sub']}")
            if ns >= 2 and n >= 12 and power(x - c) > 2 * power(c):
                improves(ctx, c, x, got, "mesh-improves", f"{name} {what} SNR={snr} n_sigma={ns}")
        t = N.slepian_mesh_hard_thresholding(ms, W.slepian_wavelet_forward(noisy.coefficients, psi, n), 0 * lev, 3)
        ctx.close(W.slepian_wavelet_inverse(t, psi, n), x, 1e-8 * (1 + np.abs(x).max()), "nothing-removed", f"{name} {what}")
