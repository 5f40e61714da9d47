"""C26: a field is the same at every resolution, and random signals are what they claim to be."""

import random

import numpy as np
from scipy.stats import chi2, kstest

import core
import funcs
import oracle as o

RULE = "an evaluation is non-trivial when the coefficients are not all zero and L >= 2; distinct by band-limit, resolution, spin, reality and signal"
REQUIRED = {"upsampled-values": 60, "real-output": 15, "spin-values": 12, "analysed-again": 30, "same-samples": 20, "low-resolution": 10, "amplitude": 20,
            "random-shape": 20, "random-generator": 20, "random-scale": 20, "random-distribution": 30, "grid-function": 20}


def cases(tier, rng):
    q = tier == "quick"
    out = [{"kind": "upsample", "sub": rng.randrange(10**9), "n": 10, "max": 14} for _ in range(5 if q else 60)]
    out += [{"kind": "upsample", "sub": rng.randrange(10**9), "n": 2, "max": m, "w": 3} for m in ([40, 64] if q else [40, 64, 90, 128, 128, 160])]
    out += [{"kind": "fine", "sub": rng.randrange(10**9), "n": 2, "w": 3} for _ in range(1 if q else 10)]
    out += [{"kind": "spin", "sub": rng.randrange(10**9), "n": 7, "w": 2} for _ in range(2 if q else 24)]
    out += [{"kind": "random", "sub": rng.randrange(10**9), "n": 10} for _ in range(3 if q else 40)]
    out += [{"kind": "functions", "sub": rng.randrange(10**9), "n": 10, "w": 2} for _ in range(2 if q else 30)]
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]), np.random.default_rng(case["sub"]))


def scale(x):
    return max(float(np.abs(x).max()), 1e-300)


def resolutions(rng, L, top):
    """Multiples, powers of two, one more, the same."""
    return sorted({L, L + 1, rng.randint(L, top), min(top, 2 * L), min(top, 1 << (L - 1).bit_length() + 1)} & set(range(L, top + 1)))


def signal(rng, g, L, real):
    k = rng.random()
    f = o.random_flm(g, L * L, real_field_L=L if real else None)
    if k < 0.15:  # one coefficient (and its mirror)
        keep = np.zeros(L * L, bool)
        i = rng.choice([0, L * L - 1, rng.randrange(L * L)])
        ell, emm = o.elm(L)
        keep[(ell == ell[i]) & (np.abs(emm) == abs(emm[i]))] = True
        f = np.where(keep, f, 0)
    elif k < 0.45:
        f = f * 10.0 ** rng.choice([-140, -60, -20, -16, -13, -11, -9, -6, 6, 12, 60])
    elif k < 0.55:
        f = np.where(o.elm(L)[0] == L - 1, f, 0)
    return f


def do_upsample(ctx, case, rng, g):
    import pyssht
    import sleplet

    up = sleplet.harmonic_methods.invert_flm_boosted
    for i in range(case["n"]):
        L = [1, 2][i] if case["n"] > 5 and i < 2 else rng.randint(max(3, case["max"] // 2) if case["max"] > 20 else 3, case["max"])
        real = rng.random() < 0.5
        flm = signal(rng, g, L, real)
        s = scale(flm)
        base = None
        for R in resolutions(rng, L, max(2 * L + 2, 3 * L if L < 20 else L + 40)):
            what = f"L={L} resolution={R} reality={real}"
            f = up(flm, L, R, reality=real)
            want = o.synthesise(flm, L, R)
            ctx.check(f.shape == (R + 1, 2 * R), "upsampled-values", f"{what}: shape {f.shape}")
            if f.shape != want.shape:
                continue
            ctx.close(f, want, 1e-12 * s * L * L, "upsampled-values", what)
            if real:
                ctx.check(np.isrealobj(f), "real-output", f"{what}: {f.dtype} for a real signal")
                c = up(flm, L, R)
                ctx.close(c, f, 1e-12 * s * L * L, "upsampled-values", f"{what}: as a complex signal")
            # poles: one value
            ctx.check(np.abs(f[[0, -1]] - f[[0, -1], :1]).max() <= 1e-11 * s * L * L, "upsampled-values", f"{what}: poles")
            back = pyssht.forward(np.ascontiguousarray(f), R, Method="MWSS", Reality=bool(np.isrealobj(f)))
            ctx.close(back[: L * L], flm, 1e-12 * s * L * L, "analysed-again", what)
            ctx.check(np.abs(back[L * L :]).max(initial=0) <= 1e-12 * s * L * L, "analysed-again", f"{what}: content above the band-limit")
            if base is None:
                base = f
            elif R % L == 0:  # every sample of the coarse grid is one of the fine grid
                k = R // L
                ctx.close(f[::k, ::k], base, 1e-12 * s * L * L, "same-samples", what)
            if L > 1:
                ctx.nontrivial(f"{what} {case['sub']} {i}")
        if L > 1:
            r = rng.randint(1, L - 1)
            ctx.raises(lambda L=L, flm=flm, r=r: up(flm, L, r), "low-resolution", f"L={L} shown at resolution {r}")


def do_fine(ctx, case, rng, g):
    """Resolutions as those of plots, far above the band-limit."""
    import sleplet

    for i in range(case["n"]):
        L = rng.randint(1, 6)
        R = [rng.randint(301, 520), rng.choice([128, 255, 256, 257, 512, rng.randint(100, 300)])][i % 2]
        real = rng.random() < 0.5
        flm = signal(rng, g, L, real)
        s = scale(flm)
        f = sleplet.harmonic_methods.invert_flm_boosted(flm, L, R, reality=real)
        ctx.close(f, o.synthesise(flm, L, R), 1e-12 * s * max(L * L, 16) * 4, "upsampled-values", f"L={L} resolution={R} reality={real}")
        if real:
            ctx.check(np.isrealobj(f), "real-output", f"L={L} resolution={R}: {f.dtype} for a real signal")


def do_spin(ctx, case, rng, g):
    import sleplet

    up = sleplet.harmonic_methods.invert_flm_boosted
    for _ in range(case["n"]):
        L = rng.randint(2, 7)
        spin = rng.choice([0, 1, 2, -1, -2, 3])
        if abs(spin) >= L:
            spin = 1
        ell, _ = o.elm(L)
        flm = np.where(ell >= abs(spin), o.random_flm(g, L * L), 0)
        for R in {L, rng.randint(L, 2 * L)}:
            f = up(flm, L, R, spin=spin)
            ctx.close(f, o.spin_synthesise(flm, L, spin, R), 1e-10 * L * L, "spin-values", f"L={L} resolution={R} spin={spin}")
            ctx.nontrivial(f"L={L} resolution={R} spin={spin} {case['sub']}")


def do_random(ctx, case, rng, g):
    import sleplet

    make = sleplet.harmonic_methods.compute_random_signal
    for _ in range(case["n"]):
        L = rng.choice([1, 2, 3, rng.randint(4, 20), rng.randint(20, 48)])
        v = rng.choice([1.0, 0.25, 4.0, 1e-6, 1e8, 0.0, rng.uniform(0.01, 50)])
        s = rng.randrange(10**6)
        what = f"random signal of L={L} and variance {v}"
        a, b = np.random.default_rng(s), np.random.default_rng(s)
        before = np.random.get_state()[1].copy()  # noqa: NPY002
        x, y = make(L, a, var_signal=v), make(L, b, var_signal=v)
        ctx.check(x.shape == (L * L,) and np.iscomplexobj(x), "random-shape", f"{what}: {x.shape} {x.dtype}")
        ctx.same(x, y, "random-generator", f"{what}: same generator state, other signal")
        ctx.check(a.bit_generator.state == b.bit_generator.state, "random-generator", f"{what}: state of the generators afterwards")
        ctx.check((np.random.get_state()[1] == before).all(), "random-generator", f"{what}: global state used")  # noqa: NPY002
        z = make(L, a, var_signal=v)
        ctx.check(v == 0 or not np.isclose(z, x).any(), "random-generator", f"{what}: the next signal repeats values of the first")
        unit = make(L, np.random.default_rng(s), var_signal=1.0)
        ctx.close(x, np.sqrt(v) * unit, 1e-12 * max(np.sqrt(v), 1e-300) * 10, "random-scale", f"{what}: scaled with the standard deviation")
        many = np.concatenate([make(L, a, var_signal=v) for _ in range(max(1, 2000 // (L * L)))]) / (np.sqrt(v / 2) or 1)
        if v == 0:
            ctx.check((many == 0).all(), "random-scale", f"{what} is not zero")
            continue
        n = many.size
        for part, name in ((many.real, "real"), (many.imag, "imaginary")):
            p = chi2.cdf((part**2).sum(), n)
            ctx.check(1e-9 < p < 1 - 1e-9, "random-distribution", f"{what}: {name} parts have variance {v / 2 * (part**2).mean()} instead of {v / 2}")
            ctx.check(abs(part.mean()) < 6.5 / np.sqrt(n), "random-distribution", f"{what}: {name} parts have mean {part.mean()}")
            ctx.check(kstest(part, "norm").pvalue > 1e-9, "random-distribution", f"{what}: {name} parts are not normally distributed")
        r = (many.real * many.imag).mean() * np.sqrt(n)
        ctx.check(abs(r) < 6.5, "random-distribution", f"{what}: real and imaginary parts are correlated ({r})")
        r = (many[1:] * many[:-1].conj()).sum() / np.sqrt(4 * n)
        ctx.check(abs(r) < 7, "random-distribution", f"{what}: neighbours are correlated ({r})")
        ctx.nontrivial(what)


def do_functions(ctx, case, rng, g):
    """The functions of the catalogue, shown finer: resampled fields and largest amplitudes."""
    import sleplet

    pm = sleplet.plot_methods
    for _ in range(case["n"]):
        L = rng.randint(4, 9)
        c = funcs.flm_case(rng, L)
        f = funcs.make(c)
        s = scale(f.coefficients)
        R = pm.calc_plot_resolution(L)
        spin = f.spin
        what = f"{c['fn']}({L}, {c['args']})"
        want = o.spin_synthesise(f.coefficients, L, spin, R) if spin else o.synthesise(f.coefficients, L, R)
        got = sleplet.harmonic_methods.invert_flm_boosted(f.coefficients, L, R, reality=f.reality, spin=spin)
        tol = 1e-11 * s * L * L
        ctx.close(got, want, tol, "upsampled-values", what)
        if hasattr(pm, "_boost_field"):
            small = o.spin_synthesise(f.coefficients, L, spin) if spin else o.synthesise(f.coefficients, L)
            small = np.ascontiguousarray(small.real if f.reality else small)
            b = pm._boost_field(small, L, R, reality=f.reality, spin=spin, upsample=True)
            ctx.close(b, want, tol * 10, "boosted-field", what)
        for t, part in (("real", want.real), ("imag", want.imag), ("abs", np.abs(want)), ("sum", want.real + want.imag)):
            a = pm.find_max_amplitude(f, plot_type=t)
            ctx.close(a, np.abs(part).max(), tol * 10, "amplitude", f"{what}: {t}")
        for t in ("real", "abs"):
            coarse = want[:: R // L, :: R // L] if R % L == 0 else (o.spin_synthesise(f.coefficients, L, spin) if spin else o.synthesise(f.coefficients, L))
            part = coarse.real if t == "real" else np.abs(coarse)
            ctx.close(pm.find_max_amplitude(f, plot_type=t, upsample=False), np.abs(part).max(), tol * 10, "amplitude", f"{what}: {t}, not upsampled")
        ctx.nontrivial(what)
        # a formula on the sphere: what is analysed is what is sampled
        try:
            ensure = sleplet.harmonic_methods._ensure_f_bandlimited
        except AttributeError as e:
            raise core.Gone(str(e)) from e
        sp = rng.choice([0, 0, 1, -1, 2])
        real = sp == 0 and rng.random() < 0.5
        ell, _ = o.elm(L)
        x = o.random_flm(g, L * L, real_field_L=L if real else None)
        x = np.where(ell >= abs(sp), x, 0)
        field = o.spin_synthesise(x, L, sp) if sp else o.synthesise(x, L)
        seen = []

        def formula(t, p, field=field, real=real, seen=seen):
            seen.append((t, p))
            return np.ascontiguousarray(field.real) if real else field

        y = ensure(formula, L, reality=real, spin=sp)
        ctx.close(y, x, 1e-10 * L, "grid-function", f"L={L} spin={sp} reality={real}")
        T, P = np.meshgrid(*o.grid(L), indexing="ij")
        ctx.close(seen[0][0], T, 1e-13, "grid-function", f"colatitudes of L={L}")
        ctx.close(seen[0][1], P, 1e-13, "grid-function", f"longitudes of L={L}")
