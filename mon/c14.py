"""C14: regions are classified right and masks mark exactly their sample points."""

import os
import random

import numpy as np

import core
import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "a mask is non-trivial when it marks some but not all samples; a classification when at least one value differs from its default; distinct by region and band-limit"
REQUIRED = {"classified": 40, "refused": 1, "mask": 80, "mask-on-grid-lines": 30, "mask-file": 8, "environment": 20, "masked-function": 20,
            "faces": 6, "masked-mesh-function": 6, "solution-mask": 10}
DEF = {"phi_min": 0.0, "phi_max": 2 * np.pi, "theta_min": 0.0, "theta_max": np.pi}


def cases(tier, rng):
    q = tier == "quick"
    out = [{"kind": "classify", "n": 40 if q else 400, "sub": rng.randrange(10**9), "w": 3}]
    for _ in range(4 if q else 30):
        out.append({"kind": "masks", "n": 25 if q else 100, "sub": rng.randrange(10**9)})
    out.append({"kind": "files", "sub": rng.randrange(10**9), "n": 12 if q else 80})
    out.append({"kind": "environment", "sub": rng.randrange(10**9), "n": 40 if q else 300})
    for _ in range(3 if q else 20):
        out.append({"kind": "functions", "sub": rng.randrange(10**9), "n": 12 if q else 40})
    out.append({"kind": "earth", "sub": rng.randrange(10**6)})
    for name in ml.NAMES:
        out.append({"kind": "mesh", "name": name, "nb": rng.randint(5, 25), "w": 1})
    for _ in range(1 if q else 5):
        out.append(treelib.cases_on(rng, 6, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(3, 15), "sub": 0}]))
    out.append({"kind": "solutions", "sub": rng.randrange(10**9), "n": 8 if q else 40, "w": 2})
    return out


def run_case(ctx, case):
    rng = random.Random(case.get("sub", 0))
    globals()["do_" + case["kind"]](ctx, case, rng)


def kind_of(v, mask):
    """Type by the documented rule."""
    d = {k: v[k] != DEF[k] for k in DEF}
    if d["theta_max"] and not (d["phi_min"] or d["phi_max"] or d["theta_min"]):
        return "polar"
    if any(d.values()):
        return "box"
    return "mask" if mask else None


def do_classify(ctx, case, rng):
    import sleplet

    cls = {"polar": "SlepianPolarCap", "box": "SlepianLimitLatLon", "mask": "SlepianArbitrary"}
    L = 2
    todo = [dict(DEF)]
    for bits in range(16):
        v = dict(DEF)
        ks = list(DEF)
        a, b = sorted(rng.uniform(0.1, 3.0) for _ in "ab")
        new = {"theta_min": a, "theta_max": b, "phi_min": a, "phi_max": b + 2}
        for i, k in enumerate(ks):
            if bits >> i & 1:
                v[k] = new[k]
        todo.append(v)
    for _ in range(case["n"]):
        v = dict(DEF)
        a, b = sorted(rng.uniform(0, np.pi) for _ in "ab")
        c, d = sorted(rng.uniform(0, 2 * np.pi) for _ in "ab")
        for k, x in (("theta_min", a), ("theta_max", b), ("phi_min", c), ("phi_max", d)):
            if rng.random() < 0.4:
                v[k] = x
        if rng.random() < 0.2:
            v[rng.choice(["phi_min", "theta_min"])] = 1e-9
        todo.append(v)
    for v in todo:
        for mask in ("", "mymask"):
            gap = rng.random() < 0.3 and v["theta_max"] <= np.pi / 2
            want = kind_of(v, mask)
            given = {k: x for k, x in v.items() if x != DEF[k] or rng.random() < 0.3}
            if mask:
                given["mask_name"] = mask
            if gap:
                given["gap"] = True
            if want is None:
                ctx.raises(lambda: sleplet.slepian.Region(**given), "refused", f"region of {given}")  # noqa: B023
                continue
            if want == "mask":
                rg.write_mask({"type": "mask", "L": L, "name": mask, "shape": "cap", "mseed": 3})
            r = ctx.accepts(lambda: sleplet.slepian.Region(**given), "classified", f"region of {given}")  # noqa: B023
            if r is None:
                continue
            s = sleplet.slepian_methods.choose_slepian_method(L, r)
            ctx.check(type(s).__name__ == cls[want], "classified", lambda: f"{given}: {type(s).__name__} instead of {cls[want]}")
            if type(s).__name__ != cls[want]:
                continue
            if want == "polar":
                ctx.check(s.theta_max == v["theta_max"] and s.gap == gap, "classified", lambda: f"{given}: theta_max={s.theta_max} gap={s.gap}")
            elif want == "box":
                ctx.check(all(getattr(s, k) == v[k] for k in v), "classified", lambda: f"{given}: {[(k, getattr(s, k)) for k in v]}")
            else:
                ctx.check(s.mask_name == mask, "classified", lambda: f"{given}: mask {s.mask_name}")
            ctx.check(all(getattr(s.region, k) == v[k] for k in v) or want == "mask", "classified", lambda: f"{given}: region of the solution {s.region}")
            ctx.nontrivial(f"{given}")
    ctx.sample(f"{len(todo)} combinations of limits, with and without mask")


def make_mask(region, L):
    import sleplet._mask_methods as mm

    return np.asarray(mm.create_mask_region(L, region))


def judge_mask(ctx, got, reg, L, monitor, msg):
    """All samples, except those closer to a bound than rounding without being equal to it."""
    import pyssht

    th, ph = pyssht.sample_positions(L, Method="MWSS")
    oth, oph = o.grid(L)
    ctx.close(th, oth, 1e-12, "grid", "colatitudes")
    ctx.close(ph, oph, 1e-12, "grid", "longitudes")
    T, P = np.meshgrid(th, ph, indexing="ij")

    def cmp(x, bound, lower):
        inside = x >= bound if lower else x <= bound
        clear = (np.abs(x - bound) > 1e-12) | (x == bound)
        return inside, clear

    if reg["type"] == "polar":
        want, clear = cmp(T, reg["theta_max"], False)
    elif reg["type"] == "gap":
        a, ca = cmp(T, reg["theta_max"], False)
        b, cb = cmp(T, np.pi - reg["theta_max"], True)
        want, clear = a | b, ca & cb
    else:
        parts = [cmp(T, reg["theta_min"], True), cmp(T, reg["theta_max"], False), cmp(P, reg["phi_min"], True), cmp(P, reg["phi_max"], False)]
        want = np.logical_and.reduce([p[0] for p in parts])
        clear = np.logical_and.reduce([p[1] for p in parts])
    ctx.check(got.shape == want.shape, monitor, lambda: f"{msg}: shape {got.shape} instead of {want.shape}")
    if got.shape == want.shape:
        bad = np.argwhere((got.astype(bool) != want) & clear)
        ctx.check(len(bad) == 0 and set(np.unique(got.astype(float))) <= {0.0, 1.0}, monitor,
                  lambda: f"{msg}: {len(bad)} samples wrong, first (theta, phi) = {[(float(th[i]), float(ph[j])) for i, j in bad[:3]]}")
        if 0 < want.sum() < want.size:
            ctx.nontrivial(msg)
        ctx.count("obs:samples judged", int(clear.sum()))


def do_masks(ctx, case, rng):
    import pyssht

    for i in range(case["n"]):
        L = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, rng.randint(3, 64)])
        reg = {"L": L, **(rg.box(rng) if i % 2 else rg.polar(rng))}
        judge_mask(ctx, make_mask(rg.region_of(reg), L), reg, L, "mask", f"{rg.describe(reg)} L={L}")
        # bounds that are sample positions
        th, ph = pyssht.sample_positions(L, Method="MWSS")
        if L < 3:
            continue
        if i % 2:
            a, b = sorted(rng.sample(range(len(th)), 2))
            c, d = sorted(rng.sample(range(len(ph)), 2))
            reg = {"L": L, "type": "box", "theta_min": float(th[a]), "theta_max": float(min(th[b], np.pi)), "phi_min": float(ph[c]), "phi_max": float(ph[d])}
            if c == 0 and a == 0:
                reg["theta_min"] = float(th[1])
                if b <= 1:
                    reg["theta_max"] = float(th[2])
        else:
            k = rng.randint(1, len(th) - 2)
            gap = rng.random() < 0.5
            reg = {"L": L, "type": "gap" if gap else "polar", "theta_max": float(th[k])}
        judge_mask(ctx, make_mask(rg.region_of(reg), L), reg, L, "mask-on-grid-lines", f"{rg.describe(reg)} on samples, L={L}")
    ctx.sample(f"last mask: {rg.describe(reg)} at L={L}")


def do_files(ctx, case, rng):
    import sleplet

    for i, r in enumerate(rg.mask_regions(rng, case["n"], l_max=12, l_min=1)):
        ctx.fresh_data()
        L = r["L"]
        r["R"] = L
        m = rg.write_mask(r)
        got = make_mask(sleplet.slepian.Region(mask_name=r["name"]), L)
        ctx.same(got, m, "mask-file", f"{rg.describe(r)} L={L}")
        if 0 < m.sum() < m.size:
            ctx.nontrivial(f"{rg.describe(r)} file L={L}")
        # a file for another band-limit, or of the wrong shape
        ctx.raises(lambda: make_mask(sleplet.slepian.Region(mask_name=r["name"]), L + 1), "mask-file", f"{rg.describe(r)}: no file for L={L + 1}")  # noqa: B023
        bad = [np.ones((L, 2 * L)), np.ones((L + 1, 2 * L + 1)), np.ones((2 * L, L + 1)), np.ones((L + 1) * 2 * L), np.ones((L + 2, 2 * L))][i % 5]
        if bad.shape == m.shape:
            bad = bad[:-1]
        np.save(os.path.join(os.environ["XDG_DATA_HOME"], f"slepian_masks_wrong_L{L}.npy"), bad)
        ctx.raises(lambda: make_mask(sleplet.slepian.Region(mask_name="wrong"), L), "mask-file", f"mask of shape {bad.shape} for L={L}")  # noqa: B023


def do_environment(ctx, case, rng):
    import sleplet._mask_methods as mm

    names = {"theta_max": "THETA_MAX", "theta_min": "THETA_MIN", "phi_max": "PHI_MAX", "phi_min": "PHI_MIN"}
    full = {"theta_min": 0, "theta_max": 180, "phi_min": 0, "phi_max": 360}
    for i in range(case["n"]):
        env, v = {}, dict(full)
        a, b = sorted(rng.sample(range(0, 181), 2))
        c, d = sorted(rng.sample(range(0, 361), 2))
        if rng.random() < 0.3:  # at an end of the range
            a, b = rng.choice([(0, b), (0, 0), (a, 180), (180, 180)])
            c, d = rng.choice([(0, d), (0, 0), (c, 360), (360, 360)])
        ends = [("theta_min", "theta_max", "phi_max"), ("theta_max",), ("phi_min", "phi_max"), ("theta_max", "phi_min"), ("theta_min", "phi_max")]
        if 0 < i <= len(ends):
            a = b = c = d = 0
        for k, x in (("theta_min", a), ("theta_max", b), ("phi_min", c), ("phi_max", d)):
            if (k in ends[i - 1]) if 0 < i <= len(ends) else rng.random() < (0.3 if i else 0):
                v[k] = x
                env[names[k]] = str(x)
            elif rng.random() < 0.3:
                env[names[k]] = str(full[k])
        gap = rng.random() < 0.4
        text = rng.choice(["True", "true", "TRUE"]) if gap else rng.choice(["False", "false", None])
        if text:
            env["POLAR_GAP"] = text
        mask = rng.choice(["africa", "south_america", "mymask", None])
        if mask:
            env["SLEPIAN_MASK"] = mask
        for k in (*names.values(), "POLAR_GAP", "SLEPIAN_MASK"):
            os.environ.pop(k, None)
        os.environ.update(env)
        r = ctx.accepts(mm.create_default_region, "environment", f"region of {env}")
        if r is None:
            continue
        for k in v:
            want = float(np.deg2rad(v[k]))
            ctx.check(abs(getattr(r, k) - want) < 1e-14, "environment", lambda: f"{env}: {k}={getattr(r, k)} instead of {want}")  # noqa: B023
        ctx.check(r.gap == gap and r.mask_name == (mask or "south_america"), "environment", lambda: f"{env}: {r}")
        want = kind_of({k: (DEF[k] if v[k] == full[k] else 1.0 + v[k]) for k in v}, "x")
        name = {"polar": "SlepianPolarCap", "box": "SlepianLimitLatLon", "mask": "SlepianArbitrary"}[want]
        if want == "mask" or (gap and v["theta_max"] > 90) or v["theta_max"] == 0:
            kind = getattr(r, "_region_type", None)
            ctx.check(kind in (None, {"polar": "polar", "box": "lim_lat_lon", "mask": "arbitrary"}[want]), "environment", lambda: f"{env}: {kind}")  # noqa: B023
        else:
            import sleplet

            s = sleplet.slepian_methods.choose_slepian_method(1, r)
            ctx.check(type(s).__name__ == name, "environment", lambda: f"{env}: {type(s).__name__} instead of {name}")  # noqa: B023
        if env:
            ctx.nontrivial(f"environment {sorted(env.items())}")
    for k in (*names.values(), "POLAR_GAP", "SLEPIAN_MASK"):
        os.environ.pop(k, None)
    # the region that a Slepian function uses when none is given
    import sleplet

    for env, cls in (({"THETA_MAX": "40"}, "SlepianPolarCap"), ({"THETA_MAX": "70", "POLAR_GAP": "true"}, "SlepianPolarCap"),
                     ({"THETA_MIN": "10", "PHI_MAX": "77"}, "SlepianLimitLatLon"), ({"SLEPIAN_MASK": "mine"}, "SlepianArbitrary")):
        os.environ.update(env)
        rg.write_mask({"type": "mask", "L": 4, "name": "mine", "shape": "cap", "mseed": 5})
        f = sleplet.functions.SlepianIdentity(4)
        ctx.check(type(f.slepian).__name__ == cls, "environment", lambda: f"{env}: function of {type(f.slepian).__name__}")  # noqa: B023
        if "THETA_MAX" in env:
            ctx.check(abs(f.slepian.theta_max - np.deg2rad(int(env["THETA_MAX"]))) < 1e-14 and f.slepian.gap == ("POLAR_GAP" in env), "environment", f"{env}: {f.slepian.theta_max}")
        for k in env:
            os.environ.pop(k)


def masked(flm, L, mask, spin):
    import pyssht

    f = pyssht.inverse(np.asarray(flm, complex), L, Method="MWSS", Spin=spin)
    return pyssht.forward(np.where(mask, f, 0), L, Method="MWSS", Spin=spin)


def do_functions(ctx, case, rng):
    names = sorted(fc.FLM)
    for i in range(case["n"]):
        name = names[i % len(names)]
        L = rng.randint(8, 14) if i % 5 else rng.randint(15, 64)
        c = fc.flm_case(rng, L, [name])
        k = i % 4
        reg = {"L": L, **(rg.polar(rng) if k == 0 else rg.polar(rng, gap=True) if k == 1 else rg.box(rng))} if k < 3 else {**rg.mask_regions(rng, 1)[0], "L": L, "R": L, "shape": "blob"}
        msg = f"{c['fn']} {c['args']} L={L} in {rg.describe(reg)}"
        if k == 3:
            mask = rg.write_mask(reg).astype(bool)
        else:
            mask = o.mask_of(reg, L)
        f0 = fc.make(c)
        f1 = fc.make(c, region=rg.region_of(reg))
        want = masked(f0.coefficients, L, mask, f0.spin)
        ctx.close(f1.coefficients, want, 1e-10 * max(1, np.abs(want).max()), "masked-function", msg)
        ctx.check(f1.reality == f0.reality and f1.spin == f0.spin, "masked-function", f"{msg}: reality or spin changed")
        if 0 < mask.sum() < mask.size:
            ctx.nontrivial(msg)
    ctx.sample(msg)
    # functions of one's own, of any spin and of harmonics of any size
    for spin in (-2, -1, 0, 1, 2):
        L = rng.randint(4, 9)
        flm = o.random_flm(np.random.default_rng(rng.randrange(10**9)), L * L) * 10.0 ** rng.choice([-11, -3, 0, 0, 6])
        flm[: spin * spin] = 0
        reg = {"L": L, **rng.choice([rg.polar(rng), rg.polar(rng, gap=True), rg.box(rng)])}
        f1 = fc.own_function(flm, spin)(L, region=rg.region_of(reg))
        want = masked(flm, L, o.mask_of(reg, L), spin)
        ctx.close(f1.coefficients, want, 1e-10 * np.abs(flm).max(), "masked-function", f"function of one's own of spin {spin}, L={L} in {rg.describe(reg)}")
    # Slepian functions have their content in the region already
    reg = {"L": 5, **rg.polar(rng, gap=False)}
    for name in ("SlepianDiracDelta", "SlepianIdentity"):
        f = fc.fn(name)(5, region=rg.region_of(reg))
        ctx.check(len(f.coefficients) == 25, "masked-function", f"{name}: {len(f.coefficients)} coefficients")


def do_earth(ctx, case, rng):
    import sleplet

    earthlib.populate(ctx, case["sub"])
    L = 12
    for name in ("Earth", "Wmap"):
        reg = {"L": L, **rg.polar(rng, gap=False)}
        f0, f1 = fc.fn(name)(L), fc.fn(name)(L, region=rg.region_of(reg))
        want = masked(f0.coefficients, L, o.mask_of(reg, L), 0)
        ctx.close(f1.coefficients, want, 1e-10 * np.abs(want).max(), "masked-function", f"{name} in {rg.describe(reg)}")
    # with the mask of a continent
    f1 = fc.fn("Earth")(L, region=sleplet.slepian.Region(mask_name="africa"))
    m = make_mask(sleplet.slepian.Region(mask_name="africa"), L).astype(bool)
    want = masked(fc.fn("Earth")(L).coefficients, L, m, 0)
    ctx.close(f1.coefficients, want, 1e-10 * np.abs(want).max(), "masked-function", "Earth in africa")


def do_mesh(ctx, case, rng):
    import sleplet._mask_methods as mm

    m = ml.mesh(case["name"], case["nb"])
    reg = np.asarray(m.mesh_region).astype(bool)
    f = np.asarray(m.faces)
    B = np.asarray(m.basis_functions)
    got = np.asarray(mm.convert_region_on_vertices_to_faces(m))
    want = reg[f[:, 0]] & reg[f[:, 1]] & reg[f[:, 2]]
    ctx.check(got.shape == want.shape and np.array_equal(got.astype(bool), want) and set(np.unique(got)) <= {0, 1}, "faces",
              lambda: f"{case['name']}: {int((got.astype(bool) != want).sum()) if got.shape == want.shape else got.shape} faces wrong")
    ctx.nontrivial(f"{case['name']}: {int(want.sum())} of {len(want)} faces")
    # another region than the configured one
    import copy

    r2 = random.Random(case["nb"])
    for _ in range(3):
        m2 = copy.copy(m)
        sel = np.array([r2.random() < 0.7 for _ in range(len(reg))])
        m2.mesh_region = sel
        got = np.asarray(mm.convert_region_on_vertices_to_faces(m2)).astype(bool)
        ctx.check(np.array_equal(got, sel[f].all(axis=1)), "faces", f"{case['name']} with a random region")
    for name in ("MeshField", "MeshBasisFunctions", "MeshNoiseField"):
        a, b = fc.meshfn(name)(m), fc.meshfn(name)(m, region=True)
        ctx.close(b.coefficients, B @ ((np.asarray(a.coefficients) @ B) * reg), 1e-9, "masked-mesh-function", f"{name} of {case['name']}")
    nr = np.random.default_rng(case["nb"])
    for k in range(3):
        u = nr.standard_normal(len(B)) * 10.0 ** nr.integers(-3, 4)
        u = u * 1j if k == 2 else u * (1 + 0.5j) + nr.standard_normal(len(B)) * 1j if k else u
        ctx.close(mm.ensure_masked_bandlimit_mesh_signal(m, u), B @ ((u @ B) * reg), 1e-10 * np.abs(u).sum(), "masked-mesh-signal", f"{case['name']}: {['real', 'complex', 'imaginary'][k]} signal")


def do_solutions(ctx, case, rng):
    """The mask that comes with a solution."""
    for reg in rg.sphere_regions(rng, case["n"], l_max=5, polar_l_max=5):
        s = rg.build(reg)
        judge_mask(ctx, np.asarray(s.mask), reg, reg["L"], "solution-mask", f"{rg.describe(reg)} L={reg['L']} solution")
    for r in rg.mask_regions(rng, 4, l_max=4):
        m = rg.write_mask(r)
        ctx.same(np.asarray(rg.build(r).mask), m, "solution-mask", f"{rg.describe(r)}")
