"""C02: the Shannon number is the region's share of the sphere times L squared."""

import numpy as np

import core
import meshlib as ml
import oracle as o
import regions as rg
import treelib

RULE = "a Shannon number is non-trivial when it is neither 0 nor the whole dimension; distinct by region and L (or mesh and number of functions)"
REQUIRED = {"shannon-number": 20, "trace": 20, "truncation": 6, "mesh-shannon": 4, "mask-shannon": 4}


def cases(tier, rng):
    q = tier == "quick"
    out = [{"kind": "solve", "w": r["L"], **r} for r in rg.sphere_regions(rng, 36 if q else 300, l_max=11 if q else 20, polar_l_max=9 if q else 16)]
    out += [{"kind": "solve", "w": r["L"], **r} for r in rg.edge_regions(rng, 12 if q else 150, l_max=9 if q else 18)]
    out += [{"kind": "mask", "w": 2 * r["L"], **r} for r in rg.mask_regions(rng, 16 if q else 70, l_max=7 if q else 10, more=True)]
    for i in range(6 if q else 40):
        rs = [{**(rg.box(rng) if j % 3 == 2 else rg.polar(rng, gap=j % 3 == 1)), "L": rng.randint(1, 200)} for j in range(60)]
        rs += [{**r, "L": rng.randint(100, 400)} for r in rg.edge_regions(rng, 18)]
        out.append({"kind": "formula", "regions": rs})
    for i in range(12 if q else 60):
        name = ml.NAMES[i % 6]
        out.append({"kind": "mesh", "name": name, "nb": rng.randint(3, 60), "w": 5})
    for _ in range(1 if q else 6):
        out.append(treelib.cases_on(rng, 6 if q else 12, lambda m: [{"kind": "mesh", "name": m["name"], "nb": rng.randint(3, 18)} for _ in range(3)]))
    if not q:
        out.append({"kind": "meshdef", "name": "bird", "w": 30})
    return out


def fast(cls):
    if not hasattr(cls, "_solve_eigenproblem"):
        raise core.Gone("no _solve_eigenproblem to cut")
    return type("Cut" + cls.__name__, (cls,), {"_solve_eigenproblem": lambda self: (np.zeros(1), np.zeros((1, 1), complex))})


def run_case(ctx, case):
    import sleplet

    if case["kind"] in ("solve", "mask"):
        L = case["L"]
        msg = f"{rg.describe(case)} L={L}"
        s = rg.build(case)
        lam = np.asarray(s.eigenvalues)
        if case["kind"] == "solve":
            share = o.area(o.boxes_of(case)) / (4 * np.pi)
            mon = "shannon-number"
        else:
            mask = rg.mask_array(case, 2 * L)
            share = (mask * o.pixel_weights(2 * L)).sum() / (4 * np.pi)
            mon = "mask-shannon"
        x = share * L * L
        if not o.near_half(x):
            ctx.check(s.N == round(x), mon, lambda: f"{msg}: N={s.N} but the share of the area times L^2 is {x}")
        ctx.close(lam.sum(), x, 1e-8 * max(1, L * L), "trace", f"{msg}: sum of the eigenvalues and area share")
        N = s.N
        if 0 < N < L * L:
            ctx.nontrivial(msg)
        ctx.sample(f"{msg}: N={N}, area share times L^2 = {x:.6f}, sum of eigenvalues {lam.sum():.6f}")
        # truncation
        rng = np.random.default_rng(len(msg))
        flm = o.random_flm(rng, L * L)
        ctx.check(len(sleplet.slepian_methods.slepian_forward(L, s, flm=flm)) == N, "truncation", f"{msg}: length of an analysis")
        ctx.check(sleplet.slepian_methods.compute_s_p_omega(L, s).shape[0] == N, "truncation", f"{msg}: number of synthesised functions")
        if N > 0:
            f_p = o.random_flm(rng, L * L)
            a = sleplet.slepian_methods.slepian_inverse(f_p, L, s)
            b = o.synthesise(np.asarray(s.eigenvectors)[:N].T @ f_p[:N], L)
            ctx.close(a, b, 1e-9 * (1 + np.abs(b).max()), "truncation", f"{msg}: synthesis uses the first N")
            again = rg.build(case)
            ctx.check(again.N == N and len(again.eigenvectors) >= N and len(again.eigenvalues) == len(lam), "truncation", f"{msg}: reloaded solution")
    elif case["kind"] == "formula":
        P, B = fast(sleplet.slepian.SlepianPolarCap), fast(sleplet.slepian.SlepianLimitLatLon)
        for r in case["regions"]:
            L = r["L"]
            if r["type"] == "box":
                s = B(L, theta_min=r["theta_min"], theta_max=r["theta_max"], phi_min=r["phi_min"], phi_max=r["phi_max"])
            else:
                s = P(L, r["theta_max"], gap=r["type"] == "gap")
            x = o.area(o.boxes_of(r)) / (4 * np.pi) * L * L
            if not o.near_half(x):
                ctx.check(s.N == round(x), "formula", lambda: f"{rg.describe(r)} L={L}: N={s.N}, area share times L^2 {x}")
                if 0 < s.N < L * L:
                    ctx.nontrivial(f"formula {rg.describe(r)} {L}")
    elif case["kind"] in ("mesh", "meshdef"):
        m = ml.mesh(case["name"], case.get("nb"))
        ms = sleplet.meshes.MeshSlepian(m)
        nb = len(m.mesh_eigenvalues)
        c = ml.config(case["name"])
        v = np.asarray(m.vertices)
        inside = np.ones(len(v), bool)
        for i, ax in enumerate("XYZ"):
            inside &= (v[:, i] >= c[ax + "MIN"]) & (v[:, i] <= c[ax + "MAX"])
        x = inside.mean() * nb
        if not o.near_half(x):
            ctx.check(ms.N == round(x), "mesh-shannon", lambda: f"{case['name']} b={nb}: N={ms.N} instead of {x}")
        if 0 < ms.N < nb:
            ctx.nontrivial(f"mesh {case['name']} {nb}")
        rng = np.random.default_rng(nb)
        u = rng.standard_normal(nb)
        ctx.check(len(sleplet.slepian_methods.slepian_mesh_forward(ms, u_i=u)) == ms.N, "mesh-truncation", case)
        f = sleplet.slepian_methods.slepian_mesh_inverse(ms, u)
        g = (u[:ms.N] @ np.asarray(ms.slepian_functions)[:ms.N]) @ np.asarray(m.basis_functions)
        ctx.close(f, g, 1e-9 * (1 + np.abs(g).max()), "mesh-truncation", f"{case['name']} {nb}")
