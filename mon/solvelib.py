"""Solving sphere and mesh problems with the real code, as data that can be compared."""

import json
import os

import numpy as np

import meshlib as ml
import regions as rg


def config(rng, kind, l_max=6, tag=""):
    """A random problem of one kind."""
    if kind == "mesh":
        return {"type": "mesh", "name": rng.choice(ml.NAMES), "nb": rng.randint(6, 24)}
    if kind == "mask":
        return {**rg.mask_regions(rng, 1, l_max=l_max)[0], "shape": rng.choice(["blob", "random", "cap", "two", "stripe", "float"])}
    r = rg.box(rng) if kind == "box" else rg.polar(rng, gap=kind == "gap")
    return {"L": rng.randint(2, l_max), **r}


def near(rng, c):
    """A problem that differs a little from another one."""
    c = dict(c)
    t = c["type"]
    k = rng.random()
    if t == "mesh":
        if k < 0.5:
            c["nb"] += 1
        else:
            c["name"] = rng.choice([n for n in ml.NAMES if n != c["name"]])
    elif t == "mask":
        if k < 0.5:
            c["L"] += 1
        else:
            c["name"], c["mseed"] = c["name"] + "x", c["mseed"] + 1
    elif k < 0.3:
        c["L"] += 1
    elif t in ("polar", "gap"):
        if k < 0.5 and c["theta_max"] < np.pi / 2:
            c["type"] = {"polar": "gap", "gap": "polar"}[t]
        else:
            # rounded: the same steps in another order give the same problem, and not one an ulp apart
            c["theta_max"] = round(c["theta_max"] * (1 - rng.choice([1e-4, 1e-3, 4e-3, 0.3])), 12)
    else:
        d = rng.choice([1e-5, 1e-3, 4e-3])
        s = rng.choice(["theta_min", "theta_max", "phi_min", "phi_max"])
        mid = (c["theta_min"] + c["theta_max"]) / 2 if s[0] == "t" else (c["phi_min"] + c["phi_max"]) / 2
        c[s] = round(c[s] + d * (mid - c[s]), 12)
    return c


def describe(c):
    return f"mesh {c['name']} b{c['nb']}" if c["type"] == "mesh" else f"{rg.describe(c)} L={c['L']}"


def key(c):
    return json.dumps({k: v for k, v in c.items() if k != "w"}, sort_keys=True)


def solve(c):
    """Everything that the solution consists of."""
    import sleplet

    if c["type"] == "mesh":
        m = ml.mesh(c["name"], c["nb"])
        s = sleplet.meshes.MeshSlepian(m)
        return {"N": s.N, "eigenvalues": np.asarray(s.slepian_eigenvalues), "eigenvectors": np.asarray(s.slepian_functions),
                "basis": np.asarray(m.basis_functions), "basis_eigenvalues": np.asarray(m.mesh_eigenvalues),
                "region": np.asarray(m.mesh_region)}
    s = rg.build(c)
    out = {"N": s.N, "eigenvalues": np.asarray(s.eigenvalues), "eigenvectors": np.asarray(s.eigenvectors), "mask": np.asarray(s.mask)}
    if c["type"] in ("polar", "gap"):
        out["orders"] = np.asarray(s.order)
    return out


def saved(data):
    """Names of the files in a data folder, without leftovers of interrupted writing."""
    return sorted(f for f in os.listdir(data) if f.endswith(".npy") and not f.startswith("."))


def limited(c):
    """Problems of which only the first N functions are kept on disk (a known finding)."""
    return c["type"] in ("box", "mask", "mesh") or c["L"] > 16


def compare(ctx, got, ref, c, monitor, msg, short_ok=False):
    """Solutions identical; the functions from N on may be missing after reloading (known finding)."""
    n0 = len(ctx.violations)
    ctx.check(got["N"] == ref["N"], monitor, lambda: f"{msg}: N={got['N']} instead of {ref['N']}")
    for k in ref:
        if k in ("N", "eigenvectors"):
            continue
        if k not in got:
            ctx.violate(monitor, f"{msg}: no {k}")
        else:
            ctx.same(got[k], ref[k], monitor, f"{msg}: {k}")
    a, b, n = got["eigenvectors"], ref["eigenvectors"], ref["N"]
    if len(a) == n < len(b) and limited(c):
        ctx.same(a, b[:n], monitor, f"{msg}: functions")
        if short_ok:  # the subject of C03
            return len(ctx.violations) == n0
        ctx.violate("all-functions-after-reload", f"{msg}: {len(a)} of {len(b)} functions", known="functions-beyond-N-not-saved")
        return len(ctx.violations) == n0 + 1
    ctx.same(a, b, monitor, f"{msg}: functions")
    return len(ctx.violations) == n0
