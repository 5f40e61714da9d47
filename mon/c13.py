"""C13: mesh transforms and mesh Slepian functions are faithful."""

import random

import numpy as np

import core
import funcs as fc
import meshlib as ml
import treelib

RULE = "a mesh problem is non-trivial when its Slepian functions include eigenvalues strictly between 1e-6 and 1-1e-6; distinct by mesh, number of functions and signal"
REQUIRED = {"forward": 20, "inverse": 20, "round-trip": 20, "orthonormal": 8, "energy-in-region": 8, "spectrum": 8, "analysis-coefficients": 15,
            "analysis-mesh": 15, "analysis-region": 15, "synthesis": 15, "analysis-undoes-synthesis": 15, "functions": 20, "analysis-poor": 10, "shannon": 8}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i, name in enumerate(ml.NAMES * (2 if q else 10)):
        nb = rng.choice([rng.randint(4, 12), rng.randint(13, 40), rng.randint(41, 70 if q else 160)])
        out.append({"kind": "mesh", "name": name, "nb": nb, "sub": rng.randrange(10**9), "w": nb / 5})
    for _ in range(1 if q else 8):  # other meshes; among them those with a single Slepian function
        out.append(treelib.cases_on(rng, 8 if q else 16, lambda m: [{"kind": "mesh", "name": m["name"], "nb": nb, "sub": rng.randrange(10**9)} for nb in rng.sample(range(5, 19), 3)]))
    return out


def run_case(ctx, case):
    import sleplet

    hm, sm = sleplet.harmonic_methods, sleplet.slepian_methods
    name, nb = case["name"], case["nb"]
    rng = np.random.default_rng(case["sub"])
    msg = f"{name} b={nb}"
    m = ml.mesh(name, nb)
    B = np.asarray(m.basis_functions)
    reg = np.asarray(m.mesh_region).astype(bool)
    nv = B.shape[1]
    # transforms
    for k in range(3):
        u = rng.standard_normal(nv) * 10.0 ** rng.integers(-3, 4)
        s = np.abs(u).max()
        ctx.close(hm.mesh_forward(m, u), B @ u, 1e-11 * s * nv**0.5, "forward", f"{msg}: forward")
        c = rng.standard_normal(nb) * 10.0 ** rng.integers(-3, 4)
        if k == 1:
            c = c + 1j * rng.standard_normal(nb)
        if k == 2:
            c = c * (rng.random(nb) < 0.3)
        s = max(np.abs(c).max(), 1e-30)
        f = hm.mesh_inverse(m, c)
        ctx.close(f, B.T @ c, 1e-11 * s, "inverse", f"{msg}: inverse")
        ctx.close(hm.mesh_forward(m, f), c, 1e-9 * s, "round-trip", f"{msg}: forward of inverse")
        # what is in the span of the basis comes back
        ctx.close(hm.mesh_inverse(m, hm.mesh_forward(m, f)), f, 1e-9 * s, "round-trip", f"{msg}: inverse of forward")
    w = rng.standard_normal(nv) + 1j * rng.standard_normal(nv)
    for u in (w, 1j * w.imag, rng.integers(-3, 4, nv), w.real > 0):
        ctx.close(hm.mesh_forward(m, u), B @ u, 1e-10 * nv**0.5, "forward", f"{msg}: forward of {u.dtype}")
    # other units
    for e in (-15, -13, -9, 8, 15):
        u, c = w.real * 10.0**e, rng.standard_normal(nb) * 10.0**e
        ctx.close(hm.mesh_forward(m, u), B @ u, 1e-10 * nv**0.5 * 10.0**e, "forward", f"{msg}: forward of a signal of size 1e{e}")
        ctx.close(hm.mesh_inverse(m, c), B.T @ c, 1e-10 * 10.0**e, "inverse", f"{msg}: inverse of size 1e{e}")
    # Slepian functions
    s = sleplet.meshes.MeshSlepian(m)
    lam, S = np.asarray(s.slepian_eigenvalues), np.asarray(s.slepian_functions)
    n = s.N
    x = reg.sum() / nv * nb
    if abs(x % 1 - 0.5) > 1e-9:
        ctx.check(n == round(x), "shannon", lambda: f"{msg}: N={n} for a share of {x}")
    D = (B * reg) @ B.T
    ctx.check(lam.shape == (nb,) and S.shape == (nb, nb), "complete", lambda: f"{msg}: {lam.shape}, {S.shape}")
    if S.shape != (nb, nb):
        return
    ctx.close(S @ S.T, np.eye(nb), 1e-9, "orthonormal", msg)
    ctx.check((np.diff(lam) <= 1e-12).all(), "sorted", msg)
    ctx.check(lam.min() > -1e-9 and lam.max() < 1 + 1e-9, "unit-interval", lambda: f"{msg}: {lam.min()}, {lam.max()}")
    ctx.close(S @ D @ S.T, np.diag(lam), 1e-9, "energy-in-region", f"{msg}: energies inside the region")
    ctx.close(lam, np.sort(np.linalg.eigvalsh(D))[::-1], 1e-9, "spectrum", msg)
    V = S @ B  # on the vertices
    ctx.close((V**2 * reg).sum(axis=1), lam, 1e-9, "energy-in-region", f"{msg}: sum over the vertices of the region")
    if ((lam > 1e-6) & (lam < 1 - 1e-6)).any():
        ctx.nontrivial(msg)
    ctx.sample(f"{msg}: N={n}, eigenvalues {np.round(lam[:4], 4).tolist()}")
    # analyses
    for k in range(3):
        c = rng.standard_normal(nb)
        if k == 2:
            c = c + 1j * rng.standard_normal(nb)
        if k == 1:  # well concentrated
            c = (rng.standard_normal(nb) * (lam > 0.5)) @ S
        u = B.T @ c
        sc = np.abs(c).max() + 1e-12
        want = S @ c
        for nc in {None, 0, 1, n, min(n + 2, nb), nb}:
            kk = n if nc is None else nc
            kw = {} if nc is None else {"n_coeffs": nc}
            ctx.close(sm.slepian_mesh_forward(s, u_i=c, **kw), want[:kk], 1e-9 * sc * nb**0.5, "analysis-coefficients", f"{msg} n={nc}")
            ctx.close(sm.slepian_mesh_forward(s, u=u, **kw), want[:kk], 1e-9 * sc * nb**0.5, "analysis-mesh", f"{msg} n={nc}")
            if kk:
                good = lam[:kk] > 1e-3
                got = sm.slepian_mesh_forward(s, u=u, mask=True, **kw)
                ctx.check(got.shape == (kk,), "analysis-region", lambda: f"{msg}: shape {got.shape}")
                if got.shape == (kk,):
                    ref = (V[:kk] * reg) @ u / np.where(good, lam[:kk], 1)
                    ctx.close(np.where(good, got, 0), np.where(good, ref, 0), 1e-7 * sc * nb, "analysis-region", f"{msg} n={nc}: region")
                    ctx.close(np.where(good, got, 0), np.where(good, want[:kk], 0), 1e-6 * sc * nb, "analysis-region", f"{msg} n={nc}: region against coefficients")
        # functions that are hardly in the region, one by one
        for r in np.flatnonzero((lam < 1e-3) & (lam > 1e-10))[:: max(1, nb // 12)] if k == 0 else ():
            v = V[r] * 10.0 ** rng.integers(-3, 4)
            got = sm.slepian_mesh_forward(s, u=v, mask=True, n_coeffs=int(r) + 1)[r]
            ref = (V[r] * reg) @ v / lam[r]
            ctx.close(got, ref, 1e-3 * abs(ref) * min(1, 1e-8 / lam[r]) + 1e-9 * abs(ref), "analysis-poor", f"{msg}: function {r} of eigenvalue {lam[r]:.2e}")
        # a signal that is no combination of the basis: whole-mesh analysis uses the vertices as they are
        w = rng.standard_normal(nv) + (1j * rng.standard_normal(nv) if k == 2 else 0)
        ctx.close(sm.slepian_mesh_forward(s, u=w), V[:n] @ w, 1e-9 * nv**0.5, "analysis-mesh", f"{msg}: general signal")
        ctx.close(sm.slepian_mesh_forward(s, u=w, mask=True), (V[:n] * reg) @ w / lam[:n], 1e-8 * nv**0.5 / max(lam[:n].min(initial=1), 1e-3), "analysis-region", f"{msg}: general signal") if n and lam[:n].min() > 1e-3 else None
        # coefficients take precedence over the signal
        ctx.close(sm.slepian_mesh_forward(s, u_i=c, u=w, mask=True), want[:n], 1e-9 * sc * nb**0.5, "analysis-coefficients", f"{msg}: all given")
        # synthesis
        p = rng.standard_normal(rng.choice([n, nb])) if n else np.zeros(nb)
        if k:
            p = p + 1j * rng.standard_normal(len(p))
        g = sm.slepian_mesh_inverse(s, p)
        ctx.close(g, p[:n] @ V[:n], 1e-9 * (np.abs(p).max() if len(p) else 1), "synthesis", msg)
        if k != 1:
            ctx.close(sm.slepian_mesh_forward(s, u=g), p[:n], 1e-8, "analysis-undoes-synthesis", f"{msg}: mesh")
            ctx.close(sm.slepian_mesh_forward(s, u_i=hm.mesh_forward(m, g)), p[:n], 1e-8, "analysis-undoes-synthesis", f"{msg}: coefficients")
        for e in (-15, -12, 9):
            ctx.close(sm.slepian_mesh_inverse(s, p * 10.0**e), g * 10.0**e, 1e-9 * 10.0**e * (np.abs(p).max() if len(p) else 1), "synthesis", f"{msg}: size 1e{e}")
            ctx.close(sm.slepian_mesh_forward(s, u_i=c * 10.0**e), want[:n] * 10.0**e, 1e-9 * sc * nb**0.5 * 10.0**e, "analysis-coefficients", f"{msg}: size 1e{e}")
            ctx.close(sm.slepian_mesh_forward(s, u=u * 10.0**e), want[:n] * 10.0**e, 1e-9 * sc * nb**0.5 * 10.0**e, "analysis-mesh", f"{msg}: size 1e{e}")
        lin = sm.slepian_mesh_inverse(s, p * 2 + 1)
        ctx.close(lin, 2 * g + sm.slepian_mesh_inverse(s, np.ones_like(p)), 1e-9 * (np.abs(p).max() if len(p) else 1) * 10, "synthesis", f"{msg}: linear")
    functions(ctx, case, m, s, B, reg, lam, S, n, msg)


def normals(v, f):
    """Per-vertex normals: sums of the face normals weighted by area."""
    nf = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
    out = np.zeros_like(v)
    for k in range(3):
        np.add.at(out, f[:, k], nf)
    return out / np.linalg.norm(out, axis=1)[:, None]


def functions(ctx, case, m, s, B, reg, lam, S, n, msg):
    rng = random.Random(case["sub"])
    nb = case["nb"]
    import sleplet

    mf = fc.meshfn("MeshField")(m)
    ref = B @ normals(np.asarray(m.vertices), np.asarray(m.faces))[:, 1]
    ctx.close(mf.coefficients, ref, 1e-6, "functions", f"{msg}: field of the normals")
    c = np.asarray(mf.coefficients)
    masked = B @ ((c @ B) * reg)
    mr = fc.meshfn("MeshField")(m, region=True)
    ctx.close(mr.coefficients, masked, 1e-9, "functions", f"{msg}: field inside the region")
    sf = fc.meshfn("MeshSlepianField")(m)
    ctx.close(sf.coefficients, (S @ masked)[:n], 1e-9, "functions", f"{msg}: Slepian field")
    for r in {0, 1, nb - 1, rng.randrange(nb)}:
        bf = fc.meshfn("MeshBasisFunctions")(m, rank=r)
        ctx.close(bf.coefficients, np.eye(nb)[r], 1e-8, "functions", f"{msg}: basis function {r}")
        ex = fc.meshfn("MeshBasisFunctions")(m, extra_args=[r])
        ctx.close(ex.coefficients, np.eye(nb)[r], 1e-8, "functions", f"{msg}: basis function {r} by extra argument")
    for r in {0, max(n - 1, 0), rng.randrange(max(n, 1))}:
        if r < n:
            sp = fc.meshfn("MeshSlepianFunctions")(m, rank=r)
            ctx.close(sp.coefficients, np.eye(n)[r], 1e-8, "functions", f"{msg}: Slepian function {r}")
            sp = fc.meshfn("MeshSlepianFunctions")(m, extra_args=[r])
            ctx.close(sp.coefficients, np.eye(n)[r], 1e-8, "functions", f"{msg}: Slepian function {r} by extra argument")
    # synthesis helper used for fields of coefficients
    f = sleplet.harmonic_methods.mesh_inverse(m, c)
    ctx.close(f, c @ B, 1e-10, "functions", f"{msg}: field of coefficients")
