"""C17: plots show the data: right values, right place, right scale."""

import os
import pathlib
import random

import numpy as np

import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import plotlib
import regions as rg
import treelib

RULE = "a figure is non-trivial when the values it shows vary by more than 1e-3 of their size; distinct by settings"
REQUIRED = {"values": 40, "positions": 40, "closed": 40, "resolution": 40, "file-name": 40, "colour-range": 40, "spin-values": 8, "unseen": 15, "seen-unchanged": 15,
            "normalised": 30, "offset-scale": 12, "constant": 8, "mesh-values": 12, "mesh-geometry": 12, "mesh-unseen": 5, "amplitude": 12, "not-changed": 20,
            "wrong-size": 2, "annotation": 3}
TYPES = {"real": lambda f: f.real, "imag": lambda f: f.imag, "abs": np.abs, "sum": lambda f: f.real + f.imag}


def cases(tier, rng):
    k = 1 if tier == "quick" else 20
    out = []
    for _ in range(3 * k):
        out.append({"kind": "sphere", "sub": rng.randrange(10**9), "n": 8, "w": 3})
        out.append({"kind": "regions", "sub": rng.randrange(10**9), "n": 7, "w": 3})
    for _ in range(2 * k):
        out.append({"kind": "spin", "sub": rng.randrange(10**9), "n": 5, "w": 4})
        out.append({"kind": "normalise", "sub": rng.randrange(10**9), "n": 12})
        out.append({"kind": "amplitude", "sub": rng.randrange(10**9), "n": 6})
    for _ in range(k):
        out.append({"kind": "solutions", "sub": rng.randrange(10**9), "n": 4, "w": 3})
        for name in ml.NAMES:
            out.append({"kind": "mesh", "name": name, "nb": rng.randint(8, 30), "sub": rng.randrange(10**9), "w": 1})
        out.append(treelib.cases_on(rng, 4, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(3, 15), "sub": rng.randrange(10**9)}]))
    out.append({"kind": "continents", "sub": rng.randrange(10**9), "L": rng.randint(5, 7), "w": 3})
    out.append({"kind": "resolution"})
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case.get("sub", 0)))


def shown(ctx, make, what):
    """The one figure of a plot."""
    s = ctx.accepts(lambda: plotlib.shown_by(make), "values", what)
    if s is None:
        return None
    if not ctx.check(len(s) == 1, "values", f"{what}: {len(s)} figures shown"):
        return None
    return s[0]


def sphere(f, L, name="plot", **kw):
    import sleplet

    return lambda: sleplet.plotting.PlotSphere(f, L, name, **kw).execute()


def unit(g):
    """Normalised by definition, or None when (nearly) constant."""
    return (g - g.min()) / np.ptp(g) if np.ptp(g) > 1e-4 * np.abs(g).max() > 0 else None


def judge_sphere(ctx, s, L, expect, what, *, plot_type, normalise, upsample, amplitude=None, name="plot", seen=None, tol=1e-9, monitor="values"):
    """expect(R): complex field on the grid of resolution R."""
    v = s.arr("surfacecolor").astype(float)
    R = v.shape[0] - 1
    ctx.check(v.shape == (R + 1, 2 * R + 1) and L <= R and (upsample or R == L), "resolution", f"{what}: values of shape {v.shape} at L={L}")
    if v.shape != (R + 1, 2 * R + 1):
        return
    g = TYPES[plot_type](expect(R))
    size = np.abs(g).max()
    open_, last = v[:, :-1], v[:, -1]
    ctx.same(last, v[:, 0], "closed", f"{what}: last and first column")
    sel = np.ones(open_.shape, bool) if seen is None else seen(R)
    if normalise:
        u = unit(g)
        if u is not None:
            ctx.close(open_[sel], u[sel], tol * size / np.ptp(g), monitor, f"{what}: normalised values")
            if seen is None:
                ctx.check(abs(open_.min()) < 1e-12 and abs(open_.max() - 1) < 1e-12, "normalised", f"{what}: from {open_.min()} to {open_.max()}")
        ctx.check(s.trace.cmin == 0 and s.trace.cmax == 1, "colour-range", f"{what}: colours from {s.trace.cmin} to {s.trace.cmax}")
    else:
        ctx.close(open_[sel], g[sel], tol * size, monitor, f"{what}: values")
        t = s.trace.cmax
        want = size if amplitude is None else amplitude
        ctx.check(s.trace.cmin == -t and abs(t - want) <= 1e-9 * max(size, want), "colour-range", f"{what}: colours from {s.trace.cmin} to {t}, amplitude {want}")
        if amplitude is None:
            ctx.check(t >= np.abs(open_[sel]).max(initial=0) * (1 - 1e-12), "colour-range", f"{what}: colours up to {t}, values up to {np.abs(open_[sel]).max(initial=0)}")
        bar = s.trace.colorbar
        ctx.check(bar.tick0 in (None, -t) and bar.dtick in (None, t), "colour-range", f"{what}: ticks from {bar.tick0} by {bar.dtick} at amplitude {t}")
    th, ph = o.grid(R)
    T, P = np.meshgrid(th, np.append(ph, 0.0), indexing="ij")
    xyz = np.stack([s.arr("x"), s.arr("y"), s.arr("z")])
    ctx.close(xyz, np.stack([np.sin(T) * np.cos(P), np.sin(T) * np.sin(P), np.cos(T)]), 1e-12, "positions", f"{what}: positions")
    ctx.close(xyz[:, :, -1], xyz[:, :, 0], 1e-12, "closed", f"{what}: closing meridian")
    res = f"_res{R}" if upsample else ""
    ctx.check(s.filename == f"{name}{res}_{plot_type}{'_norm' if normalise else ''}", "file-name", f"{what}: file name {s.filename!r}")
    if size and np.ptp(g) > 1e-3 * size:
        ctx.nontrivial(f"L{L} R{R} {plot_type} norm={normalise} up={upsample} amp={amplitude is not None} region={seen is not None} {monitor}")


def settings(rng):
    return {"plot_type": rng.choice(sorted(TYPES)), "normalise": rng.random() < 0.5, "upsample": rng.random() < 0.6}


def coefficients(rng, L, real):
    g = np.random.default_rng(rng.randrange(10**9))
    flm = o.random_flm(g, L * L, real_field_L=L if real else None) * 10.0 ** rng.choice([-9, -3, 0, 0, 4, 12])
    flm[0] += rng.choice([0, 0, 3.0]) * np.abs(flm).max()
    return flm


# ---------------------------------------------------------------- sphere
def do_sphere(ctx, case, rng):
    for i in range(case["n"]):
        L = rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16]) if i else rng.choice([1, 20, 33])
        real = rng.random() < 0.6
        flm = coefficients(rng, L, real)
        st = settings(rng)
        f = o.synthesise(flm, L)
        reality = real and rng.random() < 0.6
        turn = rng.choice([1, 1j]) if real and not reality and st["plot_type"] != "imag" else 1
        if reality:
            f = f.real.copy()
        elif turn == 1j:  # a purely imaginary field
            if st["plot_type"] == "real":
                st["plot_type"] = rng.choice(["abs", "sum", "imag"])
            flm, f = flm * 1j, f.real * 1j
        elif real and st["plot_type"] == "imag":
            continue  # (rounding noise)
        amp = None if rng.random() < 0.6 else rng.choice([0.5, 2.0, 1.0]) * float(np.abs(f).max())
        kw = dict(st, reality=reality, amplitude=amp)
        if rng.random() < 0.3:
            kw["annotations"] = [{"x": 0.0, "y": 0.6, "z": 0.8, "arrowcolor": "gold", "ax": 4, "ay": 4}]
        name = rng.choice(["plot", f"f_L{L}", "a_b_2c"])
        what = f"L={L} {kw}"
        before = f.tobytes()
        s = shown(ctx, sphere(f, L, name, **kw), what)
        if s is None:
            continue
        ctx.check(f.tobytes() == before, "not-changed", f"{what}: the field was changed")
        if reality and st["plot_type"] == "imag":
            ctx.check(np.ptp(s.arr("surfacecolor")) == 0 and np.isfinite(s.arr("surfacecolor")).all(), "constant", f"{what}: imaginary part of a real field")
            continue
        judge_sphere(ctx, s, L, lambda R, a=flm, n=L: o.synthesise(a, n, R), what, name=name, amplitude=amp, **st)  # noqa: B023
        ann = s.fig.layout.scene.annotations
        ctx.check(len(ann) == len(kw.get("annotations", [])) and all(a.z == 0.8 and a.x == 0.0 and a.y == 0.6 for a in ann), "annotation", f"{what}: annotations {ann}")
        if i == 0:
            ctx.sample(f"{what} -> {s.filename} colours {s.trace.cmin}..{s.trace.cmax}")
    # fields of one part only
    for turn in (1, 1j, -1j, 1 + 1j):
        L = rng.randint(2, 6)
        flm = coefficients(rng, L, True)
        for t in sorted(TYPES):
            for norm in (False, True):
                f = o.synthesise(flm, L).real * turn
                if norm and np.ptp(TYPES[t](f)) == 0:
                    continue
                st = {"plot_type": t, "normalise": norm, "upsample": False}
                s = shown(ctx, sphere(f, L, "p", **st), f"L={L} turned by {turn} {st}")
                if s is not None:
                    judge_sphere(ctx, s, L, lambda R, f=f: f, f"L={L} turned by {turn} {st}", name="p", **st)
    L = rng.randint(2, 6)
    for n, up in [(L + 1, False), (L - 1, False), (L + 1, True), (L - 1, True)]:
        if n >= 1:
            ctx.raises(sphere(np.ones((n + 1, 2 * n)), L, upsample=up), "wrong-size", f"field of band-limit {n} plotted with {L}")


def do_spin(ctx, case, rng):
    for _ in range(case["n"]):
        L, spin = rng.randint(2, 5), rng.choice([-2, -1, 1, 1, 2])
        if abs(spin) >= L:
            spin //= abs(spin)
        flm = coefficients(rng, L, False)
        flm[: spin * spin] = 0
        st = settings(rng)
        f = o.spin_synthesise(flm, L, spin)
        what = f"L={L} spin={spin} {st}"
        s = shown(ctx, sphere(f, L, spin=spin, **st), what)
        if s is not None:
            judge_sphere(ctx, s, L, lambda R, a=flm, n=L, p=spin: o.spin_synthesise(a, n, p, R), what, monitor="spin-values", **st)


def do_regions(ctx, case, rng):
    import sleplet

    for i in range(case["n"]):
        L = rng.choice([2, 3, 4, 6, 8])
        t = ["polar", "gap", "box", "mask"][i % 4]
        st = settings(rng)
        real = rng.random() < 0.5 and st["plot_type"] != "imag"
        flm = coefficients(rng, L, real)
        f = o.synthesise(flm, L)
        if real:
            f = f.real.copy()
        R = sleplet.plot_methods.calc_plot_resolution(L) if st["upsample"] else L
        if t == "mask":
            reg = {**rg.mask_regions(rng, 1)[0], "R": R}
            mask = rg.write_mask(reg) != 0
            edge = np.zeros(mask.shape, bool)
        else:
            reg = rg.box(rng) if t == "box" else rg.polar(rng, gap=t == "gap")
            mask = o.mask_of(reg, R)
            wide, narrow = ({k: v + e * (1 if "max" in k else -1) if isinstance(v, float) else v for k, v in reg.items()} for e in (1e-9, -1e-9))
            edge = o.mask_of(wide, R) != o.mask_of(narrow, R)
        what = f"L={L} {rg.describe(reg)} {st} real={real}"
        amp = None if rng.random() < 0.5 else float(np.abs(f).max())
        kw = dict(st, reality=real, amplitude=amp)
        s = shown(ctx, sphere(f, L, region=rg.region_of(reg), **kw), what)
        p = shown(ctx, sphere(f, L, **kw), what)
        if s is None or p is None:
            continue
        v, w = s.arr("surfacecolor").astype(float), p.arr("surfacecolor").astype(float)
        if not ctx.check(v.shape == w.shape == (R + 1, 2 * R + 1), "unseen", f"{what}: shapes {v.shape} and {w.shape}"):
            continue
        unseen = ~(v > -1e29)
        out = ~mask & ~edge
        ctx.check(unseen[:, :-1][out].all(), "unseen", lambda: f"{what}: {np.sum(~unseen[:, :-1] & out)} of {out.sum()} pixels outside are seen")  # noqa: B023
        inside = mask & ~edge
        ctx.check(not unseen[:, :-1][inside].any(), "unseen", lambda: f"{what}: {np.sum(unseen[:, :-1] & inside)} of {inside.sum()} pixels inside are unseen")  # noqa: B023
        ctx.check((unseen[:, -1] == unseen[:, 0]).all(), "closed", f"{what}: closing meridian differs from the first")
        ctx.same(v[~unseen], w[~unseen], "seen-unchanged", f"{what}: values inside of the region")
        ctx.check((s.trace.cmin, s.trace.cmax) == (p.trace.cmin, p.trace.cmax), "colour-range", f"{what}: {s.trace.cmax} with and {p.trace.cmax} without region")
        judge_sphere(ctx, s, L, lambda q, a=flm, n=L: o.synthesise(a, n, q), what, seen=lambda q, m=inside: m, amplitude=amp, **st)
        ctx.count("obs:unseen pixels", int(unseen.sum()))


def do_solutions(ctx, case, rng):
    """Slepian functions with the region of their solution, as drawn by the command."""
    import pyssht

    for i in range(case["n"]):
        t = ["polar", "box", "gap"][i % 3]
        L = rng.randint(3, 5)
        reg = {"L": L, **(rg.box(rng) if t == "box" else rg.polar(rng, gap=t == "gap"))}
        sol = rg.build(reg)
        k = rng.randrange(max(1, min(sol.N, len(sol.eigenvalues))))
        flm = sol.eigenvectors[k]
        f = pyssht.inverse(flm, L, Method="MWSS")
        st = {**settings(rng), "plot_type": rng.choice(["real", "abs", "sum"])}
        what = f"function {k} of {rg.describe(reg)} L={L} {st}"
        s = shown(ctx, sphere(f, L, region=sol.region, **st), what)
        if s is not None:
            judge_sphere(ctx, s, L, lambda q, a=flm, n=L: o.synthesise(a, n, q), what, seen=lambda q, r=reg: inner(r, q), **st)


def inner(reg, R):
    return o.mask_of({k: v + 1e-9 * (-1 if "max" in k else 1) if isinstance(v, float) else v for k, v in reg.items()}, R)


def do_continents(ctx, case, rng):
    """Masks of the continents at the resolution of the plot."""
    import sleplet

    flm, _ = earthlib.populate(ctx, case["sub"])
    L = case["L"]
    for name in ("africa", "south_america"):
        R = L if L * 16 > 40 else sleplet.plot_methods.calc_plot_resolution(L)
        c = coefficients(rng, L, True)
        f = o.synthesise(c, L).real.copy()
        s = shown(ctx, sphere(f, L, region=sleplet.slepian.Region(mask_name=name), upsample=False, reality=True), f"{name} L={L}")
        p = shown(ctx, sphere(f, L, upsample=False, reality=True), f"{name} L={L}")
        if s is None or p is None:
            continue
        m = np.load(pathlib.Path(os.environ["XDG_DATA_HOME"]) / f"slepian_masks_{name}_L{R}.npy")
        v, w = s.arr("surfacecolor").astype(float), p.arr("surfacecolor").astype(float)
        m = np.hstack([m, m[:, :1]]) != 0
        ctx.check(((v > -1e29) == m).all(), "unseen", f"{name}: pixels seen {np.sum(v > -1e29)} of {m.sum()}")
        ctx.same(v[m], w[m], "seen-unchanged", name)


# ---------------------------------------------------------------- normalisation
def do_normalise(ctx, case, rng):
    for _ in range(case["n"]):
        L = rng.randint(2, 6)
        flm = coefficients(rng, L, True)
        f = o.synthesise(flm, L).real.copy()
        up = rng.random() < 0.4
        kw = {"reality": True, "upsample": up}
        a = shown(ctx, sphere(f, L, **kw), f"L={L}")
        if a is None:
            continue
        va = a.arr("surfacecolor").astype(float)
        ctx.check(abs(va.min()) < 1e-12 and abs(va.max() - 1) < 1e-12, "normalised", f"L={L} {kw}: from {va.min()} to {va.max()}")
        k, b = 10.0 ** rng.uniform(-14, 14), rng.uniform(-20, 20) * float(np.ptp(f))
        c = shown(ctx, sphere(k * f, L, **kw), f"scaled by {k}")
        if c is not None:
            ctx.close(c.arr("surfacecolor").astype(float), va, 1e-10, "offset-scale", f"L={L} field of size {np.abs(f).max()} scaled by {k}")
        d = shown(ctx, sphere(f + b, L, **kw), f"offset by {b}")
        if d is not None:
            ctx.close(d.arr("surfacecolor").astype(float), va, 1e-9, "offset-scale", f"L={L} field of range {np.ptp(f)} offset by {b}")
        # constants
        v = rng.choice([0.0, 1.0, -3.0, 1e-20, -1e15, 1e300, 5.0])
        for u in (True, False) if abs(v) < 1e200 else (False,):
            e = shown(ctx, sphere(np.full((L + 1, 2 * L), v), L, reality=True, upsample=u), f"constant {v}")
            if e is not None:
                ve = e.arr("surfacecolor").astype(float)
                ctx.check(np.isfinite(ve).all() and np.ptp(ve) < 1e-9 and -1e-9 < ve.min() and ve.max() < 1 + 1e-9, "constant",
                          f"constant {v} at L={L} upsample={u}: shown from {ve.min()} to {ve.max()}")
        pixels(ctx, rng, L)
        # sparse and one-sided fields
        g = np.zeros((L + 1, 2 * L))
        g[rng.randrange(L + 1), rng.randrange(2 * L)] = rng.choice([1.0, -1.0, 1e-13, 1e13])
        e = shown(ctx, sphere(g, L, reality=True, upsample=False), "one sample")
        if e is not None:
            ctx.close(e.arr("surfacecolor").astype(float)[:, :-1], unit(g), 1e-12, "normalised", f"one sample of {g.sum()}")


def pixels(ctx, rng, L):
    """Fields that are no combination of harmonics, shown sample by sample."""
    g = np.random.default_rng(rng.randrange(10**9))
    for kind in ("any", "meridian", "zero meridian", "rows", "columns", "few values"):
        real = rng.random() < 0.5
        f = g.standard_normal((L + 1, 2 * L)) + (0 if real else 1j * g.standard_normal((L + 1, 2 * L)))
        if kind == "meridian":
            f[:, 0] = f[0, 0]
        if kind == "zero meridian":
            f[:, 0] = 0
        if kind == "rows":
            f[:] = f[:, :1]
        if kind == "columns":
            f[:] = f[:1]
        if kind == "few values":
            f = np.round(f.real).astype(f.dtype)
        f *= 10.0 ** rng.choice([-9, 0, 0, 7])
        t = rng.choice(sorted(TYPES))
        norm, amp = rng.random() < 0.5, rng.choice([None, 0.0, 1.0, float(np.abs(f).max())])
        what = f"L={L} samples ({kind}) {t} normalise={norm} amplitude={amp} reality={real}"
        s = shown(ctx, sphere(f, L, plot_type=t, normalise=norm, amplitude=amp, reality=real, upsample=False), what)
        if s is None:
            continue
        w = TYPES[t](f + 0j)
        v = s.arr("surfacecolor").astype(float)
        if not ctx.check(v.shape == (L + 1, 2 * L + 1), "values", f"{what}: {v.shape}"):
            continue
        want = unit(w) if norm else w
        if want is not None:
            ctx.close(v[:, :-1], want, 1e-10 * (np.abs(want).max() + 1e-300) * (np.abs(w).max() / np.ptp(w) if norm else 1), "values", what)
        ctx.check((v[:, -1] == v[:, 0]).all(), "closed", f"{what}: closing meridian differs from the first")
        if not norm:
            top = np.abs(w).max() if amp is None else amp
            ctx.check(abs(s.trace.cmax - top) <= 1e-12 * top and s.trace.cmin == -s.trace.cmax, "colour-range", f"{what}: colours {s.trace.cmin} to {s.trace.cmax}, not {top}")


# ---------------------------------------------------------------- amplitudes
def do_amplitude(ctx, case, rng):
    import sleplet

    pm = sleplet.plot_methods
    for _ in range(case["n"]):
        L = rng.randint(4, 6)
        c = fc.flm_case(rng, L, [n for n in fc.FLM if n != "Ridgelets"])
        f = fc.make(c)
        for t in sorted(TYPES):
            for up in (True, False):
                got = ctx.accepts(lambda: pm.find_max_amplitude(f, plot_type=t, upsample=up), "amplitude", f"{c} {t}")  # noqa: B023
                if got is None:
                    continue
                R = pm.calc_plot_resolution(L) if up else L
                field = o.synthesise(f.coefficients, L, R)
                want = np.abs(TYPES[t](field.real + 0j if f.reality else field)).max()
                ctx.check(abs(got - want) <= 1e-9 * np.abs(field).max(), "amplitude", f"{c} {t} upsample={up}: {got} instead of {want}")
        ctx.check(pm.compute_amplitude_for_noisy_sphere_plots(f) is None, "amplitude", f"{c}: amplitude without noise")
        n = fc.make(c, noise=rng.choice([-10, 0, 5, 20]))
        want = np.abs(o.synthesise(f.coefficients, L)).max()
        got = pm.compute_amplitude_for_noisy_sphere_plots(n)
        ctx.check(got is not None and abs(got - want) <= 1e-9 * want, "amplitude", f"{c}: amplitude {got} of the clean field {want}")
    for _ in range(2):
        L = rng.randint(3, 6)
        flm = o.random_flm(np.random.default_rng(rng.randrange(10**9)), L * L)
        n = fc.own_function(flm)(L, noise=rng.choice([-5, 0, 15]))
        got, want = pm.compute_amplitude_for_noisy_sphere_plots(n), np.abs(o.synthesise(flm, L)).max()
        ctx.check(got is not None and abs(got - want) <= 1e-9 * want, "amplitude", f"complex function of one's own, L={L}: amplitude {got} of the clean field {want}")
    r = fc.fn("Ridgelets")(4, B=2, j_min=1, spin=1, j=0)
    got, want = pm.find_max_amplitude(r, upsample=False), np.abs(o.spin_synthesise(r.coefficients, 4, 1).real).max()
    ctx.check(abs(got - want) <= 1e-9 * max(want, 1e-9), "amplitude", f"ridgelet of spin 1: {got} instead of {want}")
    reg = {"type": "polar", "theta_max": 1.0}
    cl = fc.fn("SlepianDiracDelta")(4, region=rg.region_of(reg))
    no = fc.fn("SlepianDiracDelta")(4, region=rg.region_of(reg), noise=rng.choice([-5, 10]))
    a = pm.compute_amplitude_for_noisy_sphere_plots(no)
    S = o.synthesise(cl.slepian.eigenvectors[: cl.slepian.N].T @ cl.coefficients[: cl.slepian.N], 4)
    ctx.check(a is not None and abs(a - np.abs(S).max()) <= 1e-9 * np.abs(S).max(), "amplitude", f"Slepian delta with noise: {a} and {np.abs(S).max()}")
    ctx.check(abs(pm.find_max_amplitude(cl, upsample=False) - np.abs(S.real).max()) <= 1e-9 * np.abs(S).max(), "amplitude", "Slepian delta")
    m = ml.mesh("cube", 10)
    clean, noisy = sleplet.meshes.MeshField(m), sleplet.meshes.MeshField(m, noise=4)
    ctx.check(pm.compute_amplitude_for_noisy_mesh_plots(clean) is None, "amplitude", "mesh without noise")
    a, want = pm.compute_amplitude_for_noisy_mesh_plots(noisy), np.abs(m.basis_functions.T @ clean.coefficients).max()
    ctx.check(a is not None and abs(a - want) <= 1e-9 * want, "amplitude", f"mesh field: {a} instead of {want}")


# ---------------------------------------------------------------- meshes
def do_mesh(ctx, case, rng):
    import sleplet

    m = ml.mesh(case["name"], case["nb"])
    g = np.random.default_rng(case["sub"])
    v, fa = np.asarray(m.vertices), np.asarray(m.faces)
    inside = np.asarray(m.mesh_region).astype(bool)[fa].all(axis=1)
    many = g.standard_normal((rng.randint(1, 4), len(v))) * 10.0 ** g.integers(-6, 7)
    before = many.tobytes()
    ctx.close(sleplet._mesh_methods.average_functions_on_vertices_to_faces(fa, many), many[:, fa].mean(axis=2), 1e-12 * np.abs(many).max(), "mesh-values", f"{case['name']}: {len(many)} functions")
    ctx.check(many.tobytes() == before, "not-changed", "several functions were changed")
    for region in (False, True):
        for norm in (True, False):
            f = m.basis_functions.T @ g.standard_normal(len(m.basis_functions)) * 10.0 ** rng.choice([-12, -3, 0, 5, 7]) + rng.choice([0, 1e-4])
            amp = None if rng.random() < 0.5 else float(np.abs(f).max()) * rng.choice([2, 0.5, 3e6])
            what = f"{case['name']} normalise={norm} region={region} amplitude={amp}"
            before = f.tobytes()
            s = shown(ctx, lambda: sleplet.plotting.PlotMesh(m, "p", f, normalise=norm, region=region, amplitude=amp).execute(), what)  # noqa: B023
            if s is None:
                continue
            ctx.check(f.tobytes() == before, "not-changed", f"{what}: the field was changed")
            face = f[fa].mean(axis=1)
            want = unit(face) if norm else face
            val = s.arr("intensity").astype(float)
            if not ctx.check(val.shape == face.shape and s.trace.intensitymode == "cell", "mesh-geometry", f"{what}: {val.shape} values for {len(fa)} faces"):
                continue
            sel = inside if region else np.ones(len(fa), bool)
            if want is not None:
                ctx.close(val[sel], want[sel], 1e-10 * np.abs(want).max() * (np.abs(face).max() / np.ptp(face) if norm else 1), "mesh-values", what)
                ctx.nontrivial(what)
            if region:
                low = min(s.trace.cmin, want.min() if want is not None else 0)
                ctx.check((val[~inside] < low).all(), "mesh-unseen", f"{what}: faces outside shown with {np.unique(val[~inside])[:3]}")
            if norm:
                ctx.check((s.trace.cmin, s.trace.cmax) == (0, 1), "colour-range", f"{what}: {s.trace.cmin} to {s.trace.cmax}")
                if not region and want is not None:
                    ctx.check(abs(val.min()) < 1e-12 and abs(val.max() - 1) < 1e-12, "normalised", f"{what}: from {val.min()} to {val.max()}")
            else:
                t = s.trace.cmax
                ctx.check(s.trace.cmin == -t and (t == amp if amp else abs(t - np.abs(f).max()) <= 1e-12 * t), "colour-range",
                          f"{what}: colours {s.trace.cmin} to {t}, values {face.min()} to {face.max()}")
            xyz = np.stack([s.arr("x"), s.arr("z"), s.arr("y")], 1)
            ctx.same(xyz.astype(float), v.astype(float), "mesh-geometry", f"{what}: vertices")
            ctx.check((np.stack([s.arr("i"), s.arr("j"), s.arr("k")], 1) == fa).all(), "mesh-geometry", f"{what}: faces")
            ctx.check(s.filename == f"p{'_norm' if norm else ''}", "file-name", f"{what}: {s.filename!r}")
    for c in (0.0, 2.0, -1e-9):
        s = shown(ctx, lambda: sleplet.plotting.PlotMesh(m, "p", np.full(len(v), c)).execute(), f"constant {c}")  # noqa: B023
        if s is not None:
            val = s.arr("intensity").astype(float)
            ctx.check(np.isfinite(val).all() and np.ptp(val) < 1e-9 and 0 <= val.min() and val.max() <= 1 + 1e-9, "constant", f"{case['name']}: constant {c} shown as {val.min()}..{val.max()}")


def do_resolution(ctx, case, rng):
    import sleplet

    for L in [*range(1, 1100), 2000, 2190, 4096]:
        R = sleplet.plot_methods.calc_plot_resolution(L)
        ctx.check(R >= L and R == int(R) and R % L == 0, "resolution", f"L={L} is plotted at {R}")
