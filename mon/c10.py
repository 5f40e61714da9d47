"""C10: noise has the requested SNR, is real-valued and adds to the signal exactly."""

import numpy as np
from scipy.stats import chi2

import core
import earthlib
import funcs
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "non-trivial when the clean signal is not zero; distinct by function, L or mesh, region and SNR"
REQUIRED = {"added-exactly": 30, "reported-snr": 30, "real-spectrum": 15, "determinism": 15, "scaling": 10, "power": 4, "slepian-noise": 6, "mesh-noise": 6, "sigma": 10, "noise-functions": 4}
SNRS = [-20, -10, -3.5, -1, 0, 0.5, 3, 10, 12.25, 40, 100]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(40 if q else 300):
        name = sorted(funcs.FLM)[i % len(funcs.FLM)]
        out.append({"kind": "flm", "fn": name, "args": rng.choice(funcs.FLM[name]), "L": rng.randint(6, 20), "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS)})
    for i in range(8 if q else 60):
        out.append({"kind": "flm", "fn": "own", "args": {"size": rng.choice([-140, -30, -12, -11, -8, 0, 6, 30, 120])}, "s": rng.randrange(10**9), "real": rng.random() < 0.6,
                    "L": rng.randint(4, 20), "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS)})
    for i in range(1 if q else 6):
        out.append({"kind": "flm", "fn": "own", "args": {"size": 0}, "s": rng.randrange(10**9), "real": True, "L": rng.randint(182, 260), "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS), "w": 3})
    for i in range(16 if q else 120):
        r = [rg.polar(rng, gap=False), rg.polar(rng, gap=True), rg.box(rng)][i % 3]
        r = {**r, "L": rng.randint(5, 8)}
        name = sorted(funcs.FP)[i % len(funcs.FP)]
        out.append({"kind": "fp", "fn": name, "args": rng.choice(funcs.FP[name]), "L": r["L"], "region": r, "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS), "w": 5})
    for i in range(12 if q else 80):
        name = sorted(funcs.MESH)[i % len(funcs.MESH)]
        out.append({"kind": "mesh", "fn": name, "args": rng.choice(funcs.MESH[name]), "mesh": rng.choice(ml.SMALL), "nb": rng.randint(24, 50), "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS)})
    for i in range(1 if q else 5):
        out.append(treelib.cases_on(rng, 6, lambda m: [
            {"kind": "mesh", "fn": fn, "args": rng.choice(funcs.MESH[fn][:1]), "mesh": m["name"], "nb": rng.randint(8, 25), "snr": rng.choice(SNRS), "snr2": rng.choice(SNRS)} for fn in rng.sample(sorted(funcs.MESH), 2)]))
    for i in range(10 if q else 60):
        out.append({"kind": "formula", "n": rng.randint(1, 400), "snr": rng.choice(SNRS + [rng.uniform(-30, 30)]), "s": rng.randrange(10**6)})
    for i in range(6 if q else 30):
        out.append({"kind": "power", "L": rng.randint(40, 64), "snr": rng.choice(SNRS)})
    for i in range(4 if q else 20):
        out.append({"kind": "sigma-j", "L": rng.randint(5, 8), "region": rg.box(rng) if i % 2 else rg.polar(rng), "B": rng.choice([2, 3]), "j_min": rng.choice([0, 1]), "snr": rng.choice(SNRS), "s": rng.randrange(10**6), "nb": rng.randint(20, 40), "mesh": rng.choice(ml.SMALL), "w": 4})
    for i in range(3 if q else 16):
        out.append({"kind": "earth", "L": rng.randint(6, 9), "snr": rng.choice(SNRS), "s": rng.randrange(10**6), "w": 9})
    return out


def make(case, **kw):
    if case["fn"] != "own":
        return funcs.make(case, **kw)
    flm = o.random_flm(np.random.default_rng(case["s"]), case["L"] ** 2) * 10.0 ** case["args"]["size"]
    if case["real"]:
        flm = (flm + o.hermitian(flm, case["L"])) / 2
    return funcs.own_function(flm)(case["L"], **kw)


def clean_of(f, again):
    """The clean coefficients a noised function keeps, or those of the same function without noise."""
    if not hasattr(f, "_unnoised_coefficients"):
        return np.asarray(again().coefficients)
    return np.asarray(f._unnoised_coefficients)


def power(x):
    return float((np.abs(x) ** 2).sum())


def generic(ctx, build, case, msg, noise_zero_ok=False):
    """Monitors common to all functions: exact addition, reported SNR, determinism, scaling."""
    clean = build(None)
    c0 = np.asarray(clean.coefficients)
    ctx.check(clean.snr is None and getattr(clean, "_unnoised_coefficients", None) is None, "clean-without-noise", msg)
    snr, snr2 = case["snr"], case["snr2"]
    f, g = build(snr), build(snr)
    ctx.same(f.coefficients, g.coefficients, "determinism", msg)
    kept = clean_of(f, lambda: build(None))
    ctx.close(kept, c0, 0, "keeps-clean", msg)
    noise = np.asarray(f.coefficients) - kept
    if power(c0) == 0:
        return clean, f, noise
    scale = np.abs(kept).max()
    if power(noise) > 0:
        # coefficients are clean + noise rounded once, so the difference carries that rounding
        measured = 10 * np.log10(power(kept) / power(noise))
        slack = 1e-6 + 1e-14 * 10 ** (max(snr, 0) / 20) * 200
        ctx.check(abs(measured - f.snr) < slack, "reported-snr", lambda: f"{msg}: reported {f.snr}, measured {measured}")
        h = build(snr2)
        n2 = np.asarray(h.coefficients) - kept
        ratio = 10 ** ((snr - snr2) / 20)
        ctx.close(n2, noise * ratio, 1e-11 * scale + 1e-9 * np.abs(n2).max() + 1e-15 * ratio * scale * 10, "scaling", f"{msg}: noise at {snr2} from the noise at {snr}")
        ctx.close(h.snr - f.snr, snr2 - snr, 1e-6, "scaling", f"{msg}: SNR reported at {snr2}")
    ctx.check(np.asarray(f.coefficients).shape == c0.shape, "added-exactly", f"{msg}: shape")
    return clean, f, noise


def run_case(ctx, case):
    import sleplet

    N = sleplet.noise
    k = case["kind"]
    if k == "flm":
        L, snr = case["L"], case["snr"]
        msg = f"{case['fn']} {case['args']} L={L} SNR={snr}"
        clean, f, noise = generic(ctx, lambda s: make(case, **({} if s is None else {"noise": s})), case, msg)
        c0 = np.asarray(clean.coefficients)
        ctx.close(f.coefficients, c0 + noise, 1e-15 * np.abs(f.coefficients).max(), "added-exactly", msg)
        ctx.close(o.hermitian(noise, L), noise, 1e-9 * np.abs(noise).max() + 1e-14 * np.abs(c0).max(), "real-spectrum", msg)
        sigma = np.sqrt(10 ** (-snr / 10) * power(c0) / L**2)
        z = noise / sigma
        # m=0: standard normal; m>0: complex normal of unit variance
        if 1e-12 * np.abs(c0).max() / sigma < 1e-3:
            ctx.check(np.abs(z).max() < 6, "power", lambda: f"{msg}: noise of {np.abs(z).max()} standard deviations")
            ratio = power(z) / L**2
            # variance of the mean of |z|^2 over about L^2/2 independent draws
            ctx.check(abs(ratio - 1) < 6 * np.sqrt(2.0 / (L**2 / 2)) + 1e-3, "power", lambda: f"{msg}: noise power {ratio} of the requested one")
            ctx.check(abs(f.snr - snr) < 10 * np.log10(1 + 6 * np.sqrt(4.0 / L**2)) + 1.5, "power", lambda: f"{msg}: SNR {f.snr} requested {snr}")
        ctx.nontrivial(msg)
        ctx.sample(f"{msg}: reported {f.snr:.4f} dB")
    elif k == "power":
        # the noise of many coefficients: the statistics are sharp
        L, snr = case["L"], case["snr"]
        f = sleplet.functions.Identity(L, noise=snr)
        c = clean_of(f, lambda: sleplet.functions.Identity(L))
        z = (np.asarray(f.coefficients) - c) / np.sqrt(10 ** (-snr / 10) * power(c) / L**2)
        ell, emm = o.elm(L)
        sd = np.sqrt(2 / (L * L / 2))
        ctx.check(abs(power(z) / L**2 - 1) < 6 * sd, "power", lambda: f"L={L} SNR={snr}: power ratio {power(z) / L**2}")
        ctx.check(np.abs(z).min() > 0, "power", lambda: f"L={L} SNR={snr}: {(z == 0).sum()} coefficients without noise")
        m0 = z[emm == 0]
        ctx.check(np.abs(m0.imag).max() < 1e-9, "real-spectrum", "m=0 noise is complex")
        # independent normal draws: the power of every group of them is a chi-squared variable (limits of probability 1e-9)
        p, el = z[emm > 0], ell[emm > 0]
        half = L // 2
        groups = {"m=0": m0.real, "m=0 of the low degrees": m0.real[:half], "m=0 of the high degrees": m0.real[half:],
                  "real parts": p.real * np.sqrt(2), "imaginary parts": p.imag * np.sqrt(2)}
        for lo in range(0, L, 8):
            sel = (el >= lo) & (el < lo + 8)
            groups[f"degrees from {lo}"] = np.concatenate([p.real[sel], p.imag[sel]]) * np.sqrt(2)
            sel = (emm[emm > 0] > lo) & (emm[emm > 0] <= lo + 8)
            groups[f"orders from {lo}"] = np.concatenate([p.real[sel], p.imag[sel]]) * np.sqrt(2)
        for name, g in groups.items():
            if len(g) < 4:
                continue
            low, high = chi2.ppf([1e-9, 1 - 1e-9], len(g))
            ctx.check(low < (g**2).sum() < high, "power", lambda: f"L={L} SNR={snr}: power of {name} {(g**2).mean()} over {len(g)} draws")
            ctx.check(abs(g.sum()) < 6.2 * np.sqrt(len(g)), "power", lambda: f"L={L} SNR={snr}: mean of {name} {g.mean()} over {len(g)} draws")
        n = len(p)
        ctx.check(abs((p.real * p.imag).mean()) < 6 * 0.5 / np.sqrt(n), "power", "real and imaginary parts correlated")
        flat = np.concatenate([m0.real, p.real * np.sqrt(2), p.imag * np.sqrt(2)])
        ctx.check(len(np.unique(np.round(flat, 9))) > 0.99 * len(flat), "power", lambda: f"L={L}: only {len(np.unique(np.round(flat, 9)))} different values of {len(flat)}")
        ctx.check(abs(f.snr - snr) < 10 * np.log10(1 + 6 * sd) + 0.01, "power", lambda: f"L={L}: SNR {f.snr} requested {snr}")
        ctx.nontrivial(f"power {L} {snr}")
    elif k == "fp":
        L, snr = case["L"], case["snr"]
        reg = rg.region_of(case["region"])
        s = sleplet.slepian_methods.choose_slepian_method(L, reg)
        if s.N < 2:
            raise core.Skip("tiny region")
        if case["fn"] == "SlepianWavelets" and 2**case["args"].get("j_min", 2) > L * L:
            raise core.Skip("no such scale")
        msg = f"{case['fn']} {case['args']} {rg.describe(case['region'])} L={L} SNR={snr}"
        clean, f, noise = generic(ctx, lambda x: funcs.make_fp(case, case["region"], **({} if x is None else {"noise": x})), case, msg)
        c0 = np.asarray(clean.coefficients)
        ctx.close(f.coefficients, c0 + noise, 1e-15 * np.abs(f.coefficients).max(), "added-exactly", msg)
        if power(c0[: s.N]) > 0:
            # noise of the harmonic representation of the signal, analysed: power per retained function
            flm = np.asarray(s.eigenvectors)[: s.N].T @ c0[: s.N]
            sigma = np.sqrt(10 ** (-snr / 10) * power(flm) / L**2)
            if hasattr(N, "_create_noise"):
                nlm = N._create_noise(L, flm, snr)
                want = np.asarray(s.eigenvectors)[: s.N].conj() @ nlm
                ctx.close(noise[: s.N], want, 1e-8 * sigma * 10 + 1e-13 * np.abs(c0).max(), "slepian-noise", f"{msg}: analysis of harmonic noise")
            ctx.check(np.abs(noise[: s.N]).max() < 7 * sigma + 1e-12 * np.abs(c0).max(), "slepian-noise", lambda: f"{msg}: noise {np.abs(noise).max()} for sigma {sigma}")
            ctx.check(np.abs(noise[s.N:]).max(initial=0) == 0, "slepian-noise", f"{msg}: noise beyond the Shannon number")
            # real harmonic noise: the field of the full noise is real; here its Slepian part has this property
            ctx.nontrivial(msg)
    elif k == "mesh":
        m = ml.mesh(case["mesh"], case["nb"])
        cls = funcs.meshfn(case["fn"])
        msg = f"{case['fn']} {case['args']} {case['mesh']} b={case['nb']} SNR={case['snr']}"
        if sleplet.meshes.MeshSlepian(m).N < 4:
            raise core.Skip("few functions")
        clean, f, noise = generic(ctx, lambda x: cls(m, **case["args"], **({} if x is None else {"noise": x})), case, msg)
        c0 = np.asarray(clean.coefficients)
        ctx.close(f.coefficients, c0 + noise, 1e-15 * np.abs(f.coefficients).max(), "added-exactly", msg)
        if power(c0) == 0:
            return
        if "Slepian" in case["fn"]:
            ms = clean.mesh_slepian
            u = c0[: ms.N] @ np.asarray(ms.slepian_functions)[: ms.N]
            sigma = np.sqrt(10 ** (-case["snr"] / 10) * power(u) / case["nb"])
            ctx.check(np.abs(noise[ms.N:]).max(initial=0) == 0, "mesh-noise", f"{msg}: beyond the Shannon number")
            if hasattr(N, "_create_mesh_noise"):
                want = np.asarray(ms.slepian_functions)[: ms.N] @ N._create_mesh_noise(u, case["snr"])
                ctx.close(noise[: ms.N], want, 1e-8 * sigma * 10 + 1e-13 * np.abs(c0).max(), "mesh-noise", msg)
        else:
            sigma = np.sqrt(10 ** (-case["snr"] / 10) * power(c0) / case["nb"])
            if sigma > 1e-9 * np.abs(c0).max():
                low, high = chi2.ppf([1e-9, 1 - 1e-9], case["nb"])
                ctx.check(low < power(noise) / sigma**2 < high, "mesh-noise", lambda: f"{msg}: power {power(noise) / sigma**2 / case['nb']} of the requested one")
                ctx.check(len(np.unique(np.round(noise / sigma, 6))) > 0.9 * len(noise), "mesh-noise", f"{msg}: repeated values")
                ctx.check(np.abs(noise).min() > 0, "mesh-noise", lambda: f"{msg}: no noise in coefficients {np.flatnonzero(noise == 0)}")
                for part in np.array_split(np.real(noise) / sigma, 4):
                    low, high = chi2.ppf([1e-9, 1 - 1e-9], len(part))
                    ctx.check(low < power(part) < high, "mesh-noise", lambda: f"{msg}: power {power(part) / len(part)} of the requested one in a quarter of the coefficients")
                    ctx.check(abs(part.sum()) < 6.2 * np.sqrt(len(part)), "mesh-noise", lambda: f"{msg}: mean {part.mean()} in a quarter of the coefficients")
        ctx.check(np.abs(noise).max() < 7 * sigma + 1e-12 * np.abs(c0).max(), "mesh-noise", lambda: f"{msg}: {np.abs(noise).max()} for sigma {sigma}")
        ctx.check(power(noise) > 0.05 * sigma**2 or sigma < 1e-13 * np.abs(c0).max(), "mesh-noise", f"{msg}: noise missing")
        ctx.check(np.isrealobj(noise) or np.abs(noise.imag).max() == 0, "mesh-noise", f"{msg}: complex noise")
        ctx.nontrivial(msg)
    elif k == "formula":
        rng = np.random.default_rng(case["s"])
        a, b = o.random_flm(rng, case["n"]), o.random_flm(rng, case["n"]) * 0.1
        ctx.close(N.compute_snr(a, b, "test"), 10 * np.log10(power(a) / power(b)), 1e-9, "sigma", "compute_snr")
        ctx.close(N.compute_snr(a.real, b.real, "test"), 10 * np.log10(power(a.real) / power(b.real)), 1e-9, "sigma", "compute_snr real")
        ctx.close(N.compute_snr(3 * a, b, "x") - N.compute_snr(a, b, "x"), 20 * np.log10(3), 1e-9, "sigma", "compute_snr scaling")
        want = np.sqrt(10 ** (-case["snr"] / 10) * power(a) / case["n"])
        ctx.close(N.compute_sigma_noise(a, case["snr"]), want, 1e-12 * want, "sigma", case)
        for d in (1, 7, 10 * case["n"]):
            ctx.close(N.compute_sigma_noise(a, case["snr"], denominator=d), want * np.sqrt(case["n"] / d), 1e-11 * want * np.sqrt(case["n"]), "sigma", f"{case} {d}")
        ctx.nontrivial(f"formula {case['n']} {case['snr']}")
    elif k == "sigma-j":
        rng = np.random.default_rng(case["s"])
        L = case["L"]
        s = rg.build({**case["region"], "L": L})
        w = sleplet.wavelet_methods.create_kappas(L * L, case["B"], case["j_min"])
        x = o.random_flm(rng, L * L)
        if hasattr(N, "_compute_sigma_j"):
            psi = sleplet.wavelet_methods._create_axisymmetric_wavelets(L, case["B"], 0)
            got = N._compute_sigma_j(x, psi[1:], case["snr"])
            want = np.sqrt(10 ** (-case["snr"] / 10) * power(x) / len(x)) * np.sqrt((np.abs(psi[1:]) ** 2).sum(axis=1))
            ctx.close(got, want, 1e-11 * (1 + want.max()), "sigma", "per wavelet scale")
        if hasattr(N, "_compute_slepian_sigma_j") and s.N:
            c = x[: s.N]
            got = N._compute_slepian_sigma_j(L, c, w, case["snr"], s)
            S = np.array([o.synthesise(v, L) for v in np.asarray(s.eigenvectors)[: s.N]])
            want = np.sqrt(10 ** (-case["snr"] / 10) * power(c) / L**2) * np.sqrt(np.einsum("jp,pab->jab", w[:, : s.N] ** 2, np.abs(S) ** 2))
            ctx.close(got, want, 1e-9 * (1 + want.max()), "sigma", f"{rg.describe(case['region'])} per Slepian scale and pixel")
        m = ml.mesh(case["mesh"], case["nb"])
        ms = sleplet.meshes.MeshSlepian(m)
        w = sleplet.wavelet_methods.create_kappas(case["nb"], case["B"], case["j_min"])
        c = rng.standard_normal(ms.N)
        got = N.compute_slepian_mesh_sigma_j(ms, c, w, case["snr"])
        S = np.asarray(ms.slepian_functions)[: ms.N] @ np.asarray(m.basis_functions)
        want = np.sqrt(10 ** (-case["snr"] / 10) * power(c) / case["nb"]) * np.sqrt((w[:, : ms.N] ** 2) @ (S**2))
        ctx.close(got, want, 1e-9 * (1 + want.max()), "sigma", f"{case['mesh']} {case['nb']} per mesh scale and vertex")
        ctx.nontrivial(f"sigma {case}")
    elif k == "earth":
        L = case["L"]
        earthlib.populate(ctx, case["s"])
        F = sleplet.functions
        for snr in (case["snr"], case["snr"] + 6):
            for cls, src in ((F.NoiseEarth, F.Earth),):
                n, e = cls(L, SNR=snr), src(L)
                sigma = np.sqrt(10 ** (-snr / 10) * power(e.coefficients) / L**2)
                ctx.check(np.abs(n.coefficients).max() < 6 * sigma and power(n.coefficients) > 0.3 * sigma**2 * L**2, "noise-functions", f"{case} {cls.__name__}: level")
                ctx.close(o.hermitian(n.coefficients, L), n.coefficients, 1e-10 * sigma, "noise-functions", f"{case} {cls.__name__}: real")
                both = src(L, noise=snr)
                ctx.close(np.asarray(both.coefficients) - clean_of(both, lambda: src(L)), n.coefficients, 1e-12 * np.abs(e.coefficients).max(), "noise-functions", f"{case} {cls.__name__}: the noise of the noised map")
            for cls, src, name in ((F.SlepianNoiseAfrica, F.SlepianAfrica, "africa"), (F.SlepianNoiseSouthAmerica, F.SlepianSouthAmerica, "south_america")):
                reg = sleplet.slepian.Region(mask_name=name)
                e = src(L, region=reg)
                ctx.count("obs:Slepian noise functions of", e.slepian.N)
                if e.slepian.N == 0:
                    continue
                n = cls(L, SNR=snr, region=reg)
                both = src(L, region=reg, noise=snr)
                ctx.close(np.asarray(both.coefficients) - clean_of(both, lambda: src(L, region=reg)), n.coefficients, 1e-12 * np.abs(e.coefficients).max(), "noise-functions", f"{case} {cls.__name__}: the noise of the noised map")
                ctx.check(power(n.coefficients) > 0 and n.noise is None, "noise-functions", case)
        for cls, mf in (("MeshNoiseField", "MeshField"), ("MeshSlepianNoiseField", "MeshSlepianField")):
            m = ml.mesh("bird", 30)
            n = funcs.meshfn(cls)(m, SNR=case["snr"])
            both = funcs.meshfn(mf)(m, noise=case["snr"])
            ctx.close(np.asarray(both.coefficients) - (c := clean_of(both, lambda: funcs.meshfn(mf)(m))), n.coefficients, 1e-12 * np.abs(c).max(), "noise-functions", f"{case} {cls}: the noise of the noised field")
            if cls == "MeshNoiseField":
                B, reg = np.asarray(m.basis_functions), np.asarray(m.mesh_region)
                cut = funcs.meshfn(cls)(m, SNR=case["snr"], region=True)
                ctx.close(cut.coefficients, B @ ((np.asarray(n.coefficients) @ B) * reg), 1e-9 * np.abs(n.coefficients).sum(), "noise-functions", f"{case} {cls}: inside the region")
        ctx.nontrivial(f"earth {L} {case['snr']}")
    else:
        raise core.Skip(k)
