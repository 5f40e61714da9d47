"""Region descriptions shared by the checks: generation, construction with the real code, mask files."""

import os
import pathlib

import numpy as np

import oracle as o

PI = float(np.pi)


def polar(rng, L=None, gap=None):
    gap = rng.random() < 0.4 if gap is None else gap
    k = rng.random()
    hi = PI / 2 if gap else PI
    if k < 0.25:
        t = np.deg2rad(rng.choice([1, 5, 10, 15, 20, 30, 40, 45, 60, 75, 90] + ([] if gap else [91, 120, 150, 170, 179])))
    elif k < 0.45:
        t = rng.choice([0.002, 0.01, 0.03, hi - 0.3, hi - 0.01])
    elif k < 0.55:  # next to nothing, next to everything
        t = 10 ** -rng.uniform(2.7, 5)
        t = t if rng.random() < 0.3 else hi - t
    else:
        t = rng.uniform(0.05, hi - 0.01)
    return {"type": "gap" if gap else "polar", "theta_max": float(min(t, hi))}


def box(rng):
    k = rng.random()
    if k < 0.2:  # a wedge from pole to pole
        a, b = sorted([rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI)])
        r = {"theta_min": 0.0, "theta_max": PI, "phi_min": a, "phi_max": b}
    elif k < 0.4:  # a belt
        a, b = sorted([rng.uniform(0.05, PI), rng.uniform(0.05, PI)])
        r = {"theta_min": a, "theta_max": b, "phi_min": 0.0, "phi_max": 2 * PI}
    elif k < 0.5:  # a belt that reaches the south pole
        r = {"theta_min": rng.uniform(0.3, 2.8), "theta_max": PI, "phi_min": 0.0, "phi_max": 2 * PI}
    elif k < 0.65:  # integer degrees
        a, b = sorted(rng.sample(range(0, 181, 5), 2))
        c, d = sorted(rng.sample(range(0, 361, 5), 2))
        r = {"theta_min": float(np.deg2rad(a)), "theta_max": float(np.deg2rad(b)), "phi_min": float(np.deg2rad(c)), "phi_max": float(np.deg2rad(d))}
    else:
        a, b = sorted([rng.uniform(0, PI), rng.uniform(0, PI)])
        c, d = sorted([rng.uniform(0, 2 * PI), rng.uniform(0, 2 * PI)])
        r = {"theta_min": a, "theta_max": b, "phi_min": c, "phi_max": d}
    if (r["phi_min"], r["phi_max"], r["theta_min"]) == (0.0, 2 * PI, 0.0):
        return box(rng)
    if r["theta_max"] - r["theta_min"] < 0.02 or r["phi_max"] - r["phi_min"] < 0.02:
        return box(rng)
    if k > 0.92:  # a sliver
        a = rng.choice(["theta", "phi"])
        r[f"{a}_max"] = r[f"{a}_min"] + 10 ** -rng.uniform(1.7, 4.5)
    elif k > 0.86:  # almost all longitudes
        r["phi_min"], r["phi_max"] = rng.choice([0.0, 10 ** -rng.uniform(1, 3.5)]), 2 * PI - 10 ** -rng.uniform(1, 3.5)
    return {"type": "box", **{k: float(v) for k, v in r.items()}}


def edge_regions(rng, n, l_max=12):
    """Regions that are nearly nothing or nearly everything, or nearly another kind of region."""
    out = []
    for i in range(n):
        e = 10 ** -rng.uniform(2, 5)
        if i % 3 == 0:
            gap = rng.random() < 0.4
            r = {"type": "gap" if gap else "polar", "theta_max": (PI / 2 if gap else PI) - e if rng.random() < 0.7 else e}
        else:
            a, b = sorted(rng.uniform(0, PI) for _ in range(2))
            c, d = sorted(rng.uniform(0, 2 * PI) for _ in range(2))
            r = {"type": "box", "theta_min": a, "theta_max": b, "phi_min": c, "phi_max": d}
            k = i // 3 % 6
            if k == 0:
                r["theta_max"] = a + e
            elif k == 1:
                r["phi_max"] = c + e
            elif k == 2:
                r.update(phi_min=0.0, phi_max=2 * PI, theta_min=e)
            elif k == 3:
                r.update(phi_min=0.0, phi_max=2 * PI - e, theta_min=0.0)
            elif k == 4:
                r.update(theta_min=e, theta_max=PI - e)
            else:
                r.update(phi_min=e, phi_max=2 * PI - e)
        out.append({"L": rng.randint(1, l_max), **r})
    return out


def sphere_regions(rng, n, l_max=12, polar_l_max=10, l_min=1):
    out = []
    for i in range(n):
        kind = ["polar", "gap", "box"][i % 3]
        L = rng.randint(l_min, l_max if kind == "box" else polar_l_max) if i % 7 else (l_max if kind == "box" else polar_l_max)
        if i in (3, 4, 5) and l_min <= 2:
            L = [1, 2, 2][i - 3] if l_min == 1 else 2
        r = box(rng) if kind == "box" else polar(rng, gap=kind == "gap")
        out.append({"L": L, **r})
    return out


def describe(r):
    t = r.get("type")
    if t in ("polar", "gap"):
        return f"{t}({r['theta_max']:.6g})"
    if t == "box":
        return f"box(theta {r['theta_min']:.6g}..{r['theta_max']:.6g}, phi {r['phi_min']:.6g}..{r['phi_max']:.6g})"
    if t == "mask":
        return f"mask({r['shape']}, {r['mseed']})"
    return str(t)


def build(r, **kw):
    """Solve the region with the real code."""
    import sleplet

    if r["type"] in ("polar", "gap"):
        return sleplet.slepian.SlepianPolarCap(r["L"], r["theta_max"], gap=r["type"] == "gap", **kw)
    if r["type"] == "box":
        return sleplet.slepian.SlepianLimitLatLon(r["L"], theta_min=r["theta_min"], theta_max=r["theta_max"],
                                                  phi_min=r["phi_min"], phi_max=r["phi_max"])
    if r["type"] == "mask":
        write_mask(r)
        return sleplet.slepian.SlepianArbitrary(r["L"], r["name"])
    raise ValueError(r["type"])


def region_of(r):
    import sleplet

    if r["type"] in ("polar", "gap"):
        return sleplet.slepian.Region(gap=r["type"] == "gap", theta_max=r["theta_max"])
    if r["type"] == "box":
        return sleplet.slepian.Region(theta_min=r["theta_min"], theta_max=r["theta_max"], phi_min=r["phi_min"], phi_max=r["phi_max"])
    return sleplet.slepian.Region(mask_name=r["name"])


SHAPES = ["blob", "random", "cap", "two", "stripe", "float", "rows", "columns"]
# with some symmetry, with only the look of one, or with parts of pixels
MORE = ["balanced", "mirror", "turned", "checks", "weights"]


def mask_regions(rng, n, l_max=8, l_min=3, more=False):
    out = []
    shapes = SHAPES + MORE if more else SHAPES
    shapes = rng.sample(shapes, len(shapes))
    for i in range(n):
        r = {"type": "mask", "L": rng.randint(l_min, l_max), "name": rng.choice(["island", "lake_2", "my_mask", "blob"]) + str(i),
             "shape": shapes[i % len(shapes)], "mseed": rng.randrange(10**6)}
        out.append({**r, "name": f"{r['name']}x{r['mseed']}"})  # the file of one mask is never taken for that of another
    return out


def mask_array(r, R):
    rng = np.random.default_rng(r["mseed"])
    th, ph = o.grid(R)
    T, P = np.meshgrid(th, ph, indexing="ij")
    xyz = np.stack([np.sin(T) * np.cos(P), np.sin(T) * np.sin(P), np.cos(T)])

    def blob(radius):
        v = rng.standard_normal(3)
        v /= np.linalg.norm(v)
        return np.einsum("i,iab->ab", v, xyz) > np.cos(radius)

    s = r["shape"]
    if s == "blob":
        m = blob(rng.uniform(0.5, 1.4))
    elif s == "random":
        m = rng.random(T.shape) < rng.uniform(0.2, 0.8)
    elif s == "cap":
        m = rng.uniform(0.5, 2.5) >= T
    elif s == "two":
        m = blob(rng.uniform(0.3, 0.8)) | blob(rng.uniform(0.3, 0.8))
    elif s == "stripe":
        m = np.abs(xyz[0]) < rng.uniform(0.2, 0.7)
    elif s in ("rows", "columns"):  # pieces with whole rows (columns) of samples outside between them
        n, k = T.shape if s == "rows" else T.shape[::-1]
        keep = rng.random(n) < 0.6
        at = rng.integers(n)
        keep[np.arange(at - 1, at + 2) % n] = np.array([True, False, True])[:n] if n > 2 else True
        part = (np.arange(k) + rng.integers(k)) % k < rng.uniform(0.5, 0.9) * k
        m = np.outer(keep, part) if s == "rows" else np.outer(part, keep)
    elif s == "balanced":  # as many pixels in each row as in its mirror row, elsewhere
        n, k = T.shape
        length, first = rng.integers(1, k, n), rng.integers(k)
        length = np.minimum(length, length[::-1])
        step = np.where(np.arange(n) < n // 2, 0, rng.integers(1, k))
        m = (np.arange(k) - first - step[:, None]) % k < length[:, None]
    elif s == "mirror":
        m = blob(rng.uniform(0.5, 1.2))
        m = m | m[::-1]
    elif s == "turned":  # the same after a half turn
        m = blob(rng.uniform(0.5, 1.2))
        m = m | np.roll(m, m.shape[1] // 2, axis=1)
    elif s == "checks":
        m = (np.add.outer(np.arange(T.shape[0]), np.arange(T.shape[1])) % rng.integers(2, 4)) == 0
    elif s == "weights":
        m = blob(rng.uniform(0.9, 1.9)) * rng.choice([0.1, 0.25, 0.5, 0.75], T.shape)
    else:
        m = (blob(rng.uniform(0.5, 1.4))).astype(float)
    return m


def write_mask(r, data=None):
    """Put the mask file of a mask region in the data folder; returns the mask."""
    R = r.get("R", 2 * r["L"])
    m = mask_array(r, R)
    d = pathlib.Path(data or os.environ["XDG_DATA_HOME"])
    d.mkdir(parents=True, exist_ok=True)
    f = d / f"slepian_masks_{r['name']}_L{R}.npy"
    if not f.exists():
        np.save(f, m)
    return m
