"""C12: the mesh basis are the orthonormal lowest Laplacian eigenfunctions."""

import numpy as np

import core
import meshlib as ml
import treelib

RULE = "a basis is non-trivial when it has at least three functions; distinct by mesh and number of functions"
REQUIRED = {"orthonormal": 12, "eigenfunctions": 12, "lowest": 8, "geometry": 12, "region": 12, "number": 12, "default-number": 1}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for name in ml.NAMES:
        for nb in sorted({2, 3, 10, rng.randint(11, 30), rng.randint(31, 90)} | (set() if q else {rng.randint(91, 250) for _ in range(3)})):
            out.append({"kind": "basis", "name": name, "nb": nb, "spectrum": (name in ("bird", "teapot", "dragon")) and nb == 10, "w": 10 if nb == 10 else nb / 20, "zoom": nb % 2 == 0})
    for _ in range(1 if q else 6):  # other meshes, of which the region ends at vertices
        out.append(treelib.cases_on(rng, 6 if q else 18, lambda m: [{"kind": "basis", "name": m["name"], "nb": nb, "spectrum": True, "zoom": False} for nb in (3, rng.randint(4, 20), rng.randint(8, 20))]
                                    + [{"kind": "default", "name": m["name"], "spectrum": True}]))
    # of several parts, or with a matrix that is singular to the last digit
    hard = [("two", 59, 282507), ("two", 49, 1027), ("patch", 120, 1050), ("patch", 86, 1058)]
    hard += [(rng.choice(["two", "two", "patch"]), rng.randint(40, 130), rng.randrange(10**6)) for _ in range(14 if q else 120)]
    ms = [{"name": f"shell_{i}", "shape": s, "n": n, "mseed": x, "upsample": 0, "region": "box"} for i, (s, n, x) in enumerate(hard)]
    out.append({"kind": "tree", "meshes": ms, "w": 10, "sub": 0, "cases": [{"kind": "basis", "name": m["name"], "nb": rng.choice([2, 8, 12]), "spectrum": True, "zoom": False} for m in ms]})
    for i in range(0 if q else 40):
        out.append({"kind": "basis", "name": rng.choice(ml.NAMES), "nb": rng.randint(2, 200), "spectrum": False, "zoom": False})
    out.append({"kind": "default", "name": "bird", "w": 20})
    for nb in (5, 6, 13, 14) if q else range(4, 60):  # through sets of equal eigenvalues
        out.append({"kind": "basis", "name": "cube", "nb": nb, "spectrum": False, "zoom": False})
    if not q:
        out.append({"kind": "default", "name": "teapot", "w": 20})
        out.append({"kind": "default", "name": "dragon", "w": 60})
    return out


def run_case(ctx, case):
    name = case["name"]
    m = ml.mesh(name, case.get("nb"), zoom=bool(case.get("zoom")))
    v, f = np.asarray(m.vertices), np.asarray(m.faces)
    nb = case.get("nb") or len(v) // 4
    msg = f"{name} b={case.get('nb')}"
    B, lam = np.asarray(m.basis_functions), np.asarray(m.mesh_eigenvalues)
    # geometry
    rv, rf = ml.raw(name)
    ctx.check(len(rv) == len(v) and len(rf) == len(f), "geometry", lambda: f"{msg}: {len(v)} vertices, {len(f)} faces instead of {len(rv)}, {len(rf)}")
    ctx.check(f.min() >= 0 and f.max() < len(v), "geometry", f"{msg}: faces refer to missing vertices")
    if len(rv) == len(v):
        ctx.check(max(apart(v, rv), apart(rv, v)) < 1e-6, "geometry", lambda: f"{msg}: vertices {apart(v, rv)} {apart(rv, v)}")
        # every face is one of the expected ones: by its centre and, relative to it, its corners
        a, b = sorted_faces(v, f), sorted_faces(rv, rf)
        ctx.check(max(apart(a, b), apart(b, a)) < 1e-6, "geometry", lambda: f"{msg}: faces {apart(a, b)} {apart(b, a)}")
        ctx.close(areas(v, f), areas(rv, rf), 1e-9 * max(areas(rv, rf), 1), "geometry", f"{msg}: total area")
    # region
    c = ml.config(name)
    inside = np.ones(len(v), bool)
    for i, ax in enumerate("XYZ"):
        inside &= (v[:, i] >= c[ax + "MIN"]) & (v[:, i] <= c[ax + "MAX"])
    ctx.check(np.array_equal(np.asarray(m.mesh_region).astype(bool), inside), "region", msg)
    ctx.count("obs:vertices in regions", int(inside.sum()))
    # basis
    ctx.check(B.shape == (nb, len(v)) and lam.shape == (nb,) and m.number_basis_functions == nb,
              "default-number" if case["kind"] == "default" else "number", lambda: f"{msg}: {B.shape}, {lam.shape}, {m.number_basis_functions}")
    if B.shape != (nb, len(v)):
        return
    ctx.close(B @ B.T, np.eye(nb), 1e-8, "orthonormal", msg)
    K = ml.cot_laplacian(v, f)
    top = abs(K).sum(axis=1).max()
    R = (K @ B.T).T - lam[:, None] * B
    ctx.check(np.abs(R).max() < 1e-8 * top, "eigenfunctions", lambda: f"{msg}: residual {np.abs(R).max()} of {top}")
    ctx.check((np.diff(lam) > -1e-9 * top).all(), "sorted", lambda: f"{msg}: {lam[:6]}")
    ctx.check(abs(lam[0]) < 1e-9 * top and lam.min() > -1e-9 * top, "starts-with-zero", lambda: f"{msg}: {lam[:3]}")
    if case.get("spectrum") and len(v) < 5000:
        import scipy.sparse.linalg as sl

        import scipy.linalg as la

        if len(v) < 1500:
            ref = la.eigh(K.toarray(), eigvals_only=True, subset_by_index=[0, nb - 1])
        else:
            ref = np.sort(sl.eigsh(K.tocsc(), k=nb, sigma=-1e-6 * top, which="LM", return_eigenvectors=False))
        ctx.close(lam, ref, 1e-8 * top, "lowest", f"{msg}: smallest of the spectrum")
    else:
        # number of eigenvalues below the last one, by the inertia of K - x I (Sylvester), just below a gap
        x = lam[-1]
        below = inertia(K, x + 1e-7 * top)
        ctx.check(below is None or below >= nb, "lowest", lambda: f"{msg}")
        gap = np.where(np.diff(lam) > 1e-6 * top)[0]
        if len(gap):
            i = gap[-1]
            cnt = inertia(K, (lam[i] + lam[i + 1]) / 2)
            if cnt is not None:
                ctx.check(cnt == i + 1, "lowest", lambda: f"{msg}: {cnt} eigenvalues below {lam[i]} + gap, {i + 1} reported")
    if nb >= 3:
        ctx.nontrivial(msg)
    ctx.sample(f"{msg}: {len(v)} vertices, {int(inside.sum())} in the region, eigenvalues {lam[0]:.3g}..{lam[-1]:.3g}")


def apart(a, b):
    """Largest distance of a row of a to the rows of b."""
    from scipy.spatial import cKDTree

    return float(cKDTree(b).query(a)[0].max())


def sorted_faces(v, f):
    """Symmetric functions of the corners of each face."""
    t = v[f]
    return np.hstack([t.mean(axis=1), t.max(axis=1), t.min(axis=1)])


def areas(v, f):
    return float(np.linalg.norm(np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]), axis=1).sum())


def inertia(K, x):
    """Number of eigenvalues of K below x, from the pivots of a sparse LU without row exchanges."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl

    A = (K - x * sp.identity(K.shape[0])).tocsc()
    lu = sl.splu(A, permc_spec="MMD_AT_PLUS_A", diag_pivot_thresh=0.0, options={"SymmetricMode": True})
    if not np.array_equal(lu.perm_r, lu.perm_c):
        return None
    return int((lu.U.diagonal() < 0).sum())
