"""C27: the solutions of related regions are related as the regions are."""

import random

import numpy as np

import meshlib as ml
import oracle as o
import regions as rg

RULE = "a relation is non-trivial when one of the regions has an eigenvalue strictly between 1e-6 and 1-1e-6; distinct by relation, regions and band-limit"
REQUIRED = {"solver-agreement": 4, "double-cap": 3, "complement": 4, "longitude-shift": 4, "longitude-mirror": 4, "latitude-mirror": 4, "split": 6, "nested": 8, "band-limit": 3,
            "interlacing": 6, "near": 12, "energy": 10, "shannon-number": 10, "mask-shift": 2, "mask-mirror": 2, "mask-complement": 2, "mask-union": 2, "mesh-interlacing": 2}
CASE_TIMEOUT = {"quick": 240, "thorough": 1800}
PI = float(np.pi)
SPHERE = ["agree", "gap", "complement", "shift", "mirror", "split", "nested", "band", "near"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(36 if q else 486):
        kind = SPHERE[i % len(SPHERE)]
        top = 12 if q else 24
        out.append({"kind": kind, "sub": rng.randrange(10**9), "L": rng.randint(2, top) if i % 7 else min(top, 9), "w": 3})
    for i in range(4 if q else 40):
        out.append({"kind": "rim", "sub": rng.randrange(10**9), "L": rng.randint(3, 8 if q else 14), "w": 3})
    for i in range(12 if q else 72):
        out.append({"kind": "mask", "sub": rng.randrange(10**9), "L": rng.randint(3, 6 if q else 9), "of": ["shift", "mirror", "complement", "union"][i % 4], "w": 3})
    for i in range(3 if q else 24):
        out.append({"kind": "mesh", "sub": rng.randrange(10**9), "name": (ml.SMALL if q else ml.NAMES)[i % (3 if q else 6)], "nb": rng.randint(8, 40), "w": 4})
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]))


# ---------------------------------------------------------------- solutions as operators
class Solution:
    """The energy operator of the region, put together from the functions and their eigenvalues."""

    def __init__(self, ctx, reg, sol=None):
        if sol is None:
            ctx.fresh_data()  # (after reloading, only the first N functions are there: a known finding)
        s = sol or rg.build(reg)
        self.lam, V, self.N = np.asarray(s.eigenvalues), np.asarray(s.eigenvectors), s.N
        self.V, self.L, self.name = V, s.L, f"{rg.describe(reg)} L={s.L}"
        L = s.L
        ctx.check(V.shape == (L * L, L * L) and self.lam.shape == (L * L,), "complete", f"{self.name}: {V.shape} functions")
        self.D = V.T @ (self.lam[:, None] * V.conj())
        g = np.random.default_rng(abs(hash((L, self.N))) % 1000)
        f = o.random_flm(g, L * L)
        # energy of a signal in the region by its Slepian coefficients
        e = float((self.lam * np.abs(V.conj() @ f) ** 2).sum())
        ctx.check(-1e-7 * L * L <= e <= (1 + 1e-6) * (np.abs(f) ** 2).sum() or s.N == 0 or reg["type"] == "mask", "energy", f"{self.name}: a signal of energy {(np.abs(f) ** 2).sum()} has {e} in the region")
        if ((self.lam > 1e-6) & (self.lam < 1 - 1e-6)).any():
            ctx.nontrivial(self.name)


def box(L, t0, t1, p0=0.0, p1=2 * PI):
    return {"type": "box", "L": L, "theta_min": float(t0), "theta_max": float(t1), "phi_min": float(p0), "phi_max": float(p1)}


def cap(L, t, gap=False):
    return {"type": "gap" if gap else "polar", "L": L, "theta_max": float(t)}


def angle(rng, lo, hi):
    return rng.choice([rng.uniform(lo, hi), np.deg2rad(rng.randint(int(np.degrees(lo)) + 1, int(np.degrees(hi))))])


def same_spectrum(ctx, a, b, monitor, what, tol):
    ctx.close(a.lam, b.lam, tol, monitor, f"eigenvalues, {what}")


def do_agree(ctx, case, rng):
    """The same cap as a polar cap and as a box of all longitudes: two different solvers."""
    L, t = case["L"], angle(rng, 0.1, 3.0)
    a, b = Solution(ctx, cap(L, t)), Solution(ctx, box(L, 0, t))
    what = f"{a.name} as a cap and as a box"
    ctx.close(a.D, b.D, 1e-9, "solver-agreement", what)
    same_spectrum(ctx, a, b, "solver-agreement", what, 1e-9)
    ctx.check(a.N == b.N, "shannon-number", f"{what}: {a.N} and {b.N}")
    # the functions of one region solve the other one
    ctx.close(np.real(np.einsum("pi,ij,pj->p", a.V.conj(), b.D, a.V)), a.lam, 1e-9, "solver-agreement", f"{what}: energies")


def parity(L):
    ell, emm = o.elm(L)
    return (-1.0) ** (ell + emm)


def do_gap(ctx, case, rng):
    """Both caps are the north cap and its mirror image."""
    L, t = case["L"], angle(rng, 0.1, 1.5)
    a, g, s = Solution(ctx, cap(L, t)), Solution(ctx, cap(L, t, gap=True)), Solution(ctx, box(L, PI - t, PI))
    p = parity(L)
    ctx.close(s.D, a.D * np.outer(p, p), 1e-9, "latitude-mirror", f"{a.name} and its mirror image")
    ctx.close(g.D, a.D + s.D, 1e-9, "double-cap", f"{g.name}: sum of the caps")
    ctx.check(abs(g.N - 2 * a.N) <= 1, "shannon-number", f"{g.name}: N={g.N} of two caps with {a.N}")
    ctx.check((g.lam >= a.lam - 1e-9).all(), "nested", f"{g.name} is worse than one of its caps")
    # functions of the double cap are even or odd: the operator does not mix parities
    ctx.close(np.where(np.outer(p, p) < 0, g.D, 0), 0 * g.D, 1e-9, "double-cap", f"{g.name}: parities mixed")


def do_complement(ctx, case, rng):
    """A region and the rest of the sphere."""
    L = case["L"]
    k = rng.randrange(3)
    t, u = sorted([angle(rng, 0.1, 3.0), angle(rng, 0.1, 3.0)])
    if k == 0:
        parts = [cap(L, t), box(L, t, PI)]
    elif k == 1:
        half = angle(rng, 0.1, 1.45)
        parts = [cap(L, half, gap=True), box(L, half, PI - half)]
    else:
        p, q = sorted([angle(rng, 0.1, 6.2), angle(rng, 0.1, 6.2)])
        if u - t < 0.02 or q - p < 0.02:
            u, q = t + 0.1, p + 0.05
        parts = [box(L, t, u, p, q), box(L, 0, t), box(L, u, PI), box(L, t, u, 0, p), box(L, t, u, q, 2 * PI)]
    s = [Solution(ctx, x) for x in parts]
    what = " + ".join(x.name for x in s)
    total = sum(x.D for x in s)
    ctx.close(total, np.eye(L * L), 2e-9, "complement", f"{what} is not the sphere")
    ctx.check(abs(sum(x.N for x in s) - L * L) <= len(s) / 2 + 1e-9, "shannon-number", f"{what}: {[x.N for x in s]} do not add up to {L * L}")
    if len(s) == 2:
        ctx.close(s[0].lam, 1 - s[1].lam[::-1], 2e-9, "complement", f"eigenvalues of {what}")


def random_box(rng, L):
    while True:
        if rng.random() < 0.25:  # almost all longitudes, or almost from pole to pole
            a, b, c, d = (10 ** -rng.uniform(1, 4) for _ in range(4))
            if rng.random() < 0.5:
                t0, t1 = sorted([rng.choice([0.0, angle(rng, 0.02, 3.1)]), rng.choice([PI, angle(rng, 0.02, 3.1)])])
                p0, p1 = rng.choice([(a, 2 * PI - b), (0.0, 2 * PI - b), (a, 2 * PI)])
            else:
                t0, t1 = rng.choice([(c, PI - d), (0.0, PI - d), (c, PI)])
                p0, p1 = sorted([rng.choice([0.0, angle(rng, 0.02, 6.2)]), rng.choice([2 * PI, angle(rng, 0.02, 6.2)])])
            if t1 - t0 > 0.05 and p1 - p0 > 0.05 and (t0, p0, p1) != (0.0, 0.0, 2 * PI):
                return box(L, t0, t1, p0, p1)
            continue
        t0, t1 = sorted([rng.choice([0.0, angle(rng, 0.02, 3.1)]), rng.choice([PI, angle(rng, 0.02, 3.1), angle(rng, 0.02, 3.1)])])
        p0, p1 = sorted([rng.choice([0.0, angle(rng, 0.02, 6.2), angle(rng, 0.02, 6.2)]), angle(rng, 0.02, 6.2)])
        if t1 - t0 > 0.05 and p1 - p0 > 0.05:
            return box(L, t0, t1, p0, p1)


def do_shift(ctx, case, rng):
    """Turned about the axis."""
    L = case["L"]
    r = random_box(rng, L)
    width = r["phi_max"] - r["phi_min"]
    start = rng.choice([0.0, 2 * PI - width, rng.uniform(0, 2 * PI - width)])
    r2 = {**r, "phi_min": start, "phi_max": min(start + width, 2 * PI)}
    a, b = Solution(ctx, r), Solution(ctx, r2)
    _, emm = o.elm(L)
    d = start - r["phi_min"]
    what = f"{a.name} turned by {d}"
    ctx.close(b.D, a.D * np.exp(1j * d * (emm[None] - emm[:, None])), 2e-9, "longitude-shift", what)
    same_spectrum(ctx, a, b, "longitude-shift", what, 1e-9)
    ctx.check(a.N == b.N or near(a), "shannon-number", f"{what}: {a.N} and {b.N}")


def near(s):
    x = s.lam.sum()
    return o.near_half(float(x), 1e-6)


def do_mirror(ctx, case, rng):
    L = case["L"]
    r = random_box(rng, L)
    a = Solution(ctx, r)
    b = Solution(ctx, {**r, "phi_min": 2 * PI - r["phi_max"], "phi_max": 2 * PI - r["phi_min"]})
    c = Solution(ctx, {**r, "theta_min": PI - r["theta_max"], "theta_max": PI - r["theta_min"]})
    ctx.close(b.D, a.D.conj(), 2e-9, "longitude-mirror", f"{a.name} and {b.name}")
    same_spectrum(ctx, a, b, "longitude-mirror", f"{a.name} and {b.name}", 1e-9)
    p = parity(L)
    ctx.close(c.D, a.D * np.outer(p, p), 2e-9, "latitude-mirror", f"{a.name} and {c.name}")
    same_spectrum(ctx, a, c, "latitude-mirror", f"{a.name} and {c.name}", 1e-9)
    ctx.check((a.N == b.N == c.N) or near(a), "shannon-number", f"{a.name} and mirrored: {a.N}, {b.N}, {c.N}")


def do_split(ctx, case, rng):
    """A box cut in two."""
    L = case["L"]
    r = random_box(rng, L)
    a = Solution(ctx, r)
    for lo, hi in (("theta_min", "theta_max"), ("phi_min", "phi_max")):
        cut = r[lo] + rng.uniform(0.2, 0.8) * (r[hi] - r[lo])
        x, y = Solution(ctx, {**r, hi: cut}), Solution(ctx, {**r, lo: cut})
        what = f"{a.name} cut at {cut}"
        ctx.close(x.D + y.D, a.D, 2e-9, "split", what)
        ctx.check(abs(x.N + y.N - a.N) <= 1, "shannon-number", f"{what}: {x.N} + {y.N} and {a.N}")
        ctx.check((a.lam >= np.maximum(x.lam, y.lam) - 1e-9).all(), "nested", f"{what}: a part is concentrated better than the whole")
        ctx.check(abs(x.lam.sum() + y.lam.sum() - a.lam.sum()) <= 1e-8 * L * L, "split", f"{what}: sum of the eigenvalues")


def do_rim(ctx, case, rng):
    """A belt, or a wedge from pole to pole, of which slivers at its ends are cut off."""
    L = case["L"]
    a, b = (10 ** -rng.uniform(1, 3.5) for _ in range(2))
    if case["sub"] % 2:
        t0, t1 = sorted(rng.sample([angle(rng, 0.3, 1.4), angle(rng, 1.5, 2.8), PI], 2))
        whole, mid = box(L, t0, t1), box(L, t0, t1, a, 2 * PI - b)
        ends = [box(L, t0, t1, 0, a), box(L, t0, t1, 2 * PI - b, 2 * PI)]
    else:
        p0, p1 = sorted(rng.sample([0.0, angle(rng, 0.3, 3.0), angle(rng, 3.1, 6.0)], 2))
        whole, mid = box(L, 0, PI, p0, p1), box(L, a, PI - b, p0, p1)
        ends = [box(L, 0, a, p0, p1), box(L, PI - b, PI, p0, p1)]
    s = [Solution(ctx, x) for x in (whole, mid, *ends)]
    what = f"{s[0].name} without {a} and {b} at its ends"
    ctx.close(sum(x.D for x in s[1:]), s[0].D, 2e-9, "split", what)
    ctx.check(np.linalg.eigvalsh(s[0].D - s[1].D).min() >= -2e-9, "nested", f"{what}: a field has less energy in the larger region")
    lost = share(whole) - share(mid)
    ctx.check(abs(s[0].lam.sum() - s[1].lam.sum() - lost * L * L) < 1e-7, "split", f"{what}: sums of the eigenvalues {s[0].lam.sum()} and {s[1].lam.sum()}")


def do_nested(ctx, case, rng):
    """Larger regions concentrate better."""
    L = case["L"]
    if rng.random() < 0.5:
        gap = rng.random() < 0.5
        hi = 1.5 if gap else 3.1
        ts = sorted({angle(rng, 0.05, hi) for _ in range(3)})
        regs = [cap(L, t, gap=gap) for t in ts]
    else:
        r = random_box(rng, L)
        regs = [r]
        for _ in range(2):
            r = dict(r)
            for lo, hi, top in (("theta_min", "theta_max", PI), ("phi_min", "phi_max", 2 * PI)):
                r[lo], r[hi] = r[lo] * rng.choice([1, rng.random()]), r[hi] + rng.choice([0, rng.random()]) * (top - r[hi])
            if (r["theta_min"], r["phi_min"], r["phi_max"]) == (0.0, 0.0, 2 * PI):
                r["phi_max"] = 6.0
            regs.append(r)
    s = [Solution(ctx, x) for x in regs]
    for a, b in zip(s, s[1:]):
        what = f"{a.name} inside of {b.name}"
        ctx.check(np.linalg.eigvalsh(b.D - a.D).min() >= -2e-9, "nested", f"{what}: a field has less energy in the larger region")
        ctx.check((b.lam >= a.lam - 1e-9).all(), "nested", f"{what}: eigenvalues decrease")
        ctx.check(b.N >= a.N, "shannon-number", f"{what}: {a.N} and {b.N}")


def do_band(ctx, case, rng):
    """The same region at another band-limit: one operator."""
    L = case["L"]
    M = L + rng.randint(1, 3)
    r = rng.choice([random_box(rng, L), cap(L, angle(rng, 0.1, 3.0)), cap(L, angle(rng, 0.1, 1.5), gap=True)])
    a, b = Solution(ctx, r), Solution(ctx, {**r, "L": M})
    what = f"{a.name} and {M}"
    ctx.close(b.D[: L * L, : L * L], a.D, 2e-9, "band-limit", what)
    k = M * M - L * L
    ctx.check((b.lam[: L * L] >= a.lam - 1e-9).all(), "interlacing", f"{what}: more degrees concentrate worse")
    ctx.check((b.lam[k:] <= a.lam + 1e-9).all(), "interlacing", f"{what}: eigenvalues do not interlace")
    ctx.check(b.N >= a.N, "shannon-number", f"{what}: {a.N} and {b.N}")


def do_near(ctx, case, rng):
    """Regions that hardly differ, solved in one process: each has its own solution."""
    L = min(case["L"], 7)
    kind = rng.choice(["polar", "gap", "box"])
    r = random_box(rng, L) if kind == "box" else cap(L, angle(rng, 0.2, 1.4 if kind == "gap" else 2.9), gap=kind == "gap")
    name = rng.choice(["theta_min", "theta_max", "phi_min", "phi_max"]) if kind == "box" else "theta_max"
    regs = [r]
    for d in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
        x = {**r, name: r[name] + d * (1 if name.endswith("max") else -1)}
        if 0 <= x[name] <= (2 * PI if "phi" in name else PI) and (x.get("phi_min", 0), x.get("phi_max", 1), x.get("theta_min", 0)) != (0.0, 2 * PI, 0.0):
            regs.append(x)
    rng.shuffle(regs)
    s = [Solution(ctx, x) for x in regs]
    for a, x in zip(s, regs):
        want = share(x) * L * L
        ctx.check(abs(a.lam.sum() - want) < 3e-8, "near", lambda: f"{a.name} {name}={x[name]!r}: the eigenvalues add up to {a.lam.sum()}, not {want}")
    pairs = sorted(zip(regs, s), key=lambda p: share(p[0]))
    for (x, a), (y, b) in zip(pairs, pairs[1:]):
        ctx.check(np.linalg.eigvalsh(b.D - a.D).min() >= -2e-9, "near", f"{a.name}, {name}={x[name]!r} inside of {y[name]!r}: a field has less energy in the larger region")


def share(r):
    if r["type"] == "box":
        return (r["phi_max"] - r["phi_min"]) * (np.cos(r["theta_min"]) - np.cos(r["theta_max"])) / (4 * PI)
    return (1 - np.cos(r["theta_max"])) / (1 if r["type"] == "gap" else 2)


# ---------------------------------------------------------------- masks
def do_mask(ctx, case, rng):
    import sleplet

    L, of = case["L"], case["of"]
    R = 2 * L
    base = rg.mask_regions(rng, 1, l_max=L, l_min=L)[0]
    base["shape"] = rng.choice(["blob", "random", "two", "stripe", "cap", "rows", "rows", "columns"])
    m = rg.mask_array(base, R).astype(bool)
    if not 3 < m.sum() < m.size - 3:
        m[R // 2, : R // 2] = True
        m[R // 2, R // 2 :] = False

    def solve(name, mask):
        d = ctx.fresh_data()
        name = f"{name}{case['sub']}"
        np.save(d / f"slepian_masks_{name}_L{R}.npy", mask)
        s = sleplet.slepian.SlepianArbitrary(L, name)
        return Solution(ctx, {**base, "name": name, "type": "mask"}, s)

    a = solve("first", m)
    _, emm = o.elm(L)
    if of == "shift":
        k = rng.randint(1, 2 * R - 1)
        b = solve("turned", np.roll(m, k, axis=1))
        d = 2 * PI * k / (2 * R)
        ctx.close(b.D, a.D * np.exp(1j * d * (emm[None] - emm[:, None])), 1e-8, "mask-shift", f"{a.name} turned by {k} pixels")
        same_spectrum(ctx, a, b, "mask-shift", f"{a.name} turned by {k} pixels", 1e-8)
        ctx.check(a.N == b.N, "shannon-number", f"{a.name} turned: {a.N} and {b.N}")
    elif of == "mirror":
        b = solve("mirrored", np.roll(m[:, ::-1], 1, axis=1))
        ctx.close(b.D, a.D.conj(), 1e-8, "mask-mirror", f"{a.name} mirrored in longitude")
        c = solve("flipped", m[::-1])
        p = parity(L)
        ctx.close(c.D, a.D * np.outer(p, p), 1e-8, "mask-mirror", f"{a.name} mirrored at the equator")
        ctx.check(a.N == b.N == c.N, "shannon-number", f"{a.name} mirrored: {a.N}, {b.N}, {c.N}")
    elif of == "complement":
        b, full = solve("rest", ~m), solve("all", np.ones_like(m))
        ctx.close(a.D + b.D, full.D, 1e-8, "mask-complement", f"{a.name} and the rest of the sphere")
        # the pixel sum over the whole sphere is close to the identity
        ctx.close(full.lam, np.ones(L * L), 0.2, "mask-complement", f"whole sphere as a mask, L={L}")
        ctx.check(abs(a.N + b.N - L * L) <= 1 + 0.02 * L * L, "shannon-number", f"{a.name}: {a.N} + {b.N} of {L * L}")
    else:
        g = np.random.default_rng(case["sub"])
        part = m & (g.random(m.shape) < 0.5)
        b, c = solve("part", part), solve("other", m & ~part)
        ctx.close(b.D + c.D, a.D, 1e-8, "mask-union", f"{a.name} cut in two masks")
        ctx.check((a.lam >= np.maximum(b.lam, c.lam) - 1e-8).all(), "mask-union", f"{a.name}: a part is concentrated better than the whole")


# ---------------------------------------------------------------- meshes
def do_mesh(ctx, case, rng):
    import sleplet

    sols = []
    for nb in (case["nb"], case["nb"] + rng.randint(1, 6)):
        m = ml.mesh(case["name"], nb)
        s = sleplet.meshes.MeshSlepian(m)
        phi = np.asarray(m.basis_functions)
        inside = np.asarray(m.mesh_region).astype(bool)
        D = phi[:, inside] @ phi[:, inside].T
        V, lam = np.asarray(s.slepian_functions), np.asarray(s.slepian_eigenvalues)
        what = f"{case['name']} {nb}"
        ctx.check(V.shape == (nb, nb), "complete", f"{what}: {V.shape} functions")
        ctx.close(V.conj().T @ (lam[:, None] * V), D, 1e-8, "mesh-interlacing", f"{what}: operator of the region")
        sols.append((lam, np.asarray(m.mesh_eigenvalues), s.N))
        ctx.nontrivial(what)
    (a, ea, na), (b, eb, nb_) = sols
    n, k = len(a), len(b) - len(a)
    scale = max(abs(eb).max(), 1e-300)
    ctx.close(eb[:n], ea, 1e-7 * scale, "mesh-interlacing", f"{case['name']}: eigenvalues of the mesh for {n} and {n + k} functions")
    ctx.check(nb_ >= na, "shannon-number", f"{case['name']}: N={na} and {nb_} for {n} and {n + k} functions")
    if eb[n] - eb[n - 1] > 1e-4 * scale:  # otherwise the cut is not unique
        ctx.check((b[:n] >= a - 1e-7).all() and (b[k:] <= a + 1e-7).all(), "mesh-interlacing", f"{case['name']}: Slepian eigenvalues for {n} and {n + k} functions do not interlace")
