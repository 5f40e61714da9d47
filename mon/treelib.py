"""Meshes of our own, in a copy of the package; cases run against that copy in a process of their own.

A case of kind "tree" has "meshes" (what to add to the data of the copy) and "cases" (of the same check).
"""

import os
import pathlib
import shutil

import numpy as np

import core

SHAPES = ["hull", "patch", "torus", "two", "hull", "grid"]


def random_mesh(rng, name, shape=None, region=None):
    """JSON-able description of a mesh and its region."""
    return {"name": name, "shape": shape or rng.choice(SHAPES), "n": rng.randint(40, 130), "mseed": rng.randrange(10**6),
            "upsample": rng.choice([0, 0, 1]), "region": region or rng.choice(["box", "box", "slab", "corner", "small"])}


def geometry(d):
    """Vertices (with exact short coordinates) and faces."""
    rng = np.random.default_rng(d["mseed"])
    n = d["n"]

    def hull(n, centre=0.0):
        from scipy.spatial import ConvexHull

        v = rng.standard_normal((n, 3))
        v /= np.linalg.norm(v, axis=1)[:, None]
        v *= rng.uniform(0.6, 1.4, 3)
        h = ConvexHull(v)
        f = h.simplices.copy()
        out = np.einsum("ij,ij->i", np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]), h.equations[:, :3]) < 0
        f[out] = f[out][:, ::-1]
        used = np.unique(f)
        return v[used] + centre, np.searchsorted(used, f)

    s = d["shape"]
    if s == "hull":
        v, f = hull(n)
    elif s == "two":
        (a, fa), (b, fb) = hull(n // 2), hull(n // 2, 3.0)
        v, f = np.vstack([a, b]), np.vstack([fa, fb + len(a)])
    elif s == "patch":
        from scipy.spatial import Delaunay

        p = rng.uniform(-1, 1, (n, 2))
        f = Delaunay(p).simplices
        e1, e2 = p[f[:, 1]] - p[f[:, 0]], p[f[:, 2]] - p[f[:, 0]]
        keep = np.abs(e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0]) > 1e-2  # slivers make huge weights
        f = f[keep]
        used = np.unique(f)
        p, f = p[used], np.searchsorted(used, f)
        v = np.column_stack([p, 0.5 * np.sin(2 * p[:, 0]) * p[:, 1]])
    else:
        nu, nv = (max(5, int(n**0.5)), max(5, int(n**0.5) - 1))
        u, w = np.meshgrid(np.arange(nu), np.arange(nv), indexing="ij")
        wrap = s == "torus"
        if wrap:
            a, b = 2 * np.pi * u.ravel() / nu, 2 * np.pi * w.ravel() / nv
            v = np.column_stack([(2 + 0.8 * np.cos(b)) * np.cos(a), (2 + 0.8 * np.cos(b)) * np.sin(a), 0.8 * np.sin(b)])
        else:
            v = np.column_stack([u.ravel() / 4, w.ravel() / 4, ((u * 3 + w * 5) % 7).ravel() / 16])
        f = []
        for i in range(nu if wrap else nu - 1):
            for j in range(nv if wrap else nv - 1):
                k = [((i + x) % nu) * nv + (j + y) % nv for x, y in ((0, 0), (1, 0), (1, 1), (0, 1))]
                f += [[k[0], k[1], k[2]], [k[0], k[2], k[3]]]
        f = np.array(f)
    return np.round(v * 4096) / 4096, f


def bounds(d, v):
    """The box, with its faces through vertices."""
    rng = np.random.default_rng(d["mseed"] + 1)
    lo, hi = np.full(3, -np.inf), np.full(3, np.inf)
    kind = d["region"]
    for ax in range(3):
        x = np.sort(v[:, ax])
        if kind == "slab" and ax != d["mseed"] % 3:
            continue
        if kind == "everything":
            continue
        a, b = (0.05, 0.9) if kind == "box" else (0.3, 0.75) if kind == "slab" else (0.0, 0.6) if kind == "corner" else (0.3, 0.72)
        a, b = a + rng.uniform(-0.05, 0.05), b + rng.uniform(-0.05, 0.05)
        lo[ax], hi[ax] = x[int(max(a, 0) * len(x))], x[int(b * len(x))]
        if kind == "corner" and rng.random() < 0.5:
            lo[ax] = -np.inf
        if kind == "box" and rng.random() < 0.3:
            hi[ax] = np.inf
    return lo, hi


def add(d, folder):
    v, f = geometry(d)
    text = f"OFF\n{len(v)} {len(f)} 0\n" + "".join(f"{a!r} {b!r} {c!r}\n" for a, b, c in v.tolist()) + "".join(f"3 {a} {b} {c}\n" for a, b, c in f.tolist())
    (folder / f"meshes_polygons_{d['name']}.off").write_text(text)
    lo, hi = bounds(d, v)
    conf = {"CAMERA_X": 2, "CAMERA_Y": 1, "CAMERA_Z": 0.5, "CENTRE_X": 0.25, "CENTRE_Y": 0, "CENTRE_Z": -0.5, "DEFAULT_COLOURBAR_POS": 0.9, "DEFAULT_ZOOM": 1.5,
            "REGION_COLOURBAR_POS": 0.8, "REGION_ZOOM": 2.5, "UPSAMPLE": d["upsample"]}
    for i, ax in enumerate("XYZ"):
        conf[ax + "MIN"], conf[ax + "MAX"] = float(lo[i]), float(hi[i])
    lines = [f'FILENAME = "{d["name"]}.off"'] + [f"{k} = {x!r}" for k, x in conf.items()]
    (folder / f"meshes_regions_{d['name']}.toml").write_text("\n".join(lines) + "\n")


def cases_on(rng, n, make, **kw):
    """A case on n meshes of our own; make(mesh) gives the cases on one."""
    meshes = [random_mesh(rng, rng.choice(["shell", "birds", "my_mesh", "cube2", "b7"]) + f"_{i}" * (i % 2) + "x" * (i // 2), SHAPES[i % len(SHAPES)]) for i in range(n)]
    return {"kind": "tree", "meshes": meshes, "cases": [c for m in meshes for c in make(m)], "w": 12, "sub": 0, **kw}


def make_tree(ctx, meshes):
    t = ctx.scratch / "tree"
    shutil.copytree(core.REPO_SRC, t, ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    for d in meshes:
        add(d, t / "sleplet" / "_data")
    return t


def run(ctx, prop):
    """Run the cases against the copy and take over what was observed."""
    import childlib

    t = make_tree(ctx, ctx.case["meshes"])
    if len(list((t / "sleplet" / "_data").glob("*.toml"))) == len(ctx.case["meshes"]):
        raise core.Gone("no data of meshes in the package")
    rc, res, log = childlib.run(ctx, "treelib", "child", {"prop": prop, "cases": ctx.case["cases"], "seed": ctx.seed, "tier": ctx.tier, "scratch": str(ctx.scratch)},
                                env={"PYTHONPATH": f"{t}:{core.HERE}", "VERIF_REPO_SRC": str(t)}, timeout=800)
    if res is None or "error" in res:
        raise core.Skip(f"infrastructure: child {rc}: {(res or {}).get('error')} {log[-300:]}")
    for r in res["ok"]:
        for k, n in r["counts"].items():
            ctx.count(k, n)
        ctx.keys |= set(r["keys"])
        ctx.skips += r["skips"]
        ctx.samples = (ctx.samples + r["samples"])[:3]
        for v in r["violations"]:
            ctx.violations.append({**v, "case": ctx.case, "msg": "mesh of our own: " + v["msg"]})
    ctx.count("obs:meshes of our own", len(ctx.case["meshes"]))


def child(prop, cases, seed, tier, scratch):
    import importlib

    import sleplet

    if not str(pathlib.Path(sleplet.__file__).resolve()).startswith(core.REPO_SRC):
        raise RuntimeError(f"sleplet imported from {sleplet.__file__}")
    mod = importlib.import_module(prop.lower())
    out = []
    env0 = dict(os.environ)
    for i, c in enumerate(cases):
        os.environ.clear()
        os.environ.update(env0)
        d = pathlib.Path(scratch) / f"sub{i}"
        d.mkdir()
        ctx = core.Ctx(prop, c, d, seed, tier)
        ctx.fresh_data()
        core.run_guarded(mod, ctx)
        # whether the factorisation of the Laplacian of such a mesh is possible at all is a matter of rounding errors
        ctx.violations = [v for v in ctx.violations if "Factor is exactly singular" not in v["msg"]]
        out.append(ctx.result())
    return out
