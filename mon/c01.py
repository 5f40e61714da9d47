"""C01: Slepian functions solve the concentration problem of their region."""

import numpy as np

import core
import oracle as o
import regions as rg

RULE = "a solved region is non-trivial when at least one eigenvalue lies strictly between 1e-6 and 1-1e-6; distinct by region, L and variant"
REQUIRED = {"energy-fraction": 10, "orthonormal": 10, "order-functions": 3, "mask-energy-fraction": 2}
CASE_TIMEOUT = {"quick": 240, "thorough": 1800}


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for reg in rg.sphere_regions(rng, 60 if q else 300, l_max=12 if q else 22, polar_l_max=10 if q else 18):
        out.append({"kind": "solve", "w": reg["L"], **reg})
    for reg in rg.edge_regions(rng, 24 if q else 200, l_max=9 if q else 18):
        out.append({"kind": "solve", "w": reg["L"], **reg})
    for reg in rg.mask_regions(rng, 18 if q else 60, l_max=8 if q else 11, more=True):
        out.append({"kind": "mask", "w": reg["L"] * 2, **reg})
    for _ in range(30 if q else 300):
        L = rng.randint(3, 14 if q else 26)
        out.append({"kind": "order", "L": L, **rg.polar(rng),
                    "order": rng.choice([0, L - 1, -(L - 1), rng.randint(-(L - 1), L - 1)]), "w": L / 2})
    # high degrees, where sums that cancel lose their digits
    for i in range(10 if q else 60):
        L = rng.choice([36, 48, 64, 80, 96]) + rng.randint(-4, 4) if q or i % 3 else rng.randint(60, 160)
        rows = rng.randint(4, max(5, 620 // L)) if q else rng.randint(4, 1800 // L)
        out.append({"kind": "high", "L": L, **rg.polar(rng), "order": (L - rows) * rng.choice([1, -1]), "w": 6})
    for _ in range(0 if q else 6):
        out.append({"kind": "high", "L": rng.randint(36, 64), **rg.polar(rng), "order": rng.randint(-3, 3), "w": 60})
    for _ in range(1 if q else 8):
        out.append({"kind": "solve", "L": 20 if q else rng.randint(24, 34), **rg.box(rng), "w": 40})
    # the scale at which solutions are truncated on disk, once
    out.append({"kind": "solve", "type": "polar", "theta_max": 0.7 + rng.random() / 10, "L": 17, "w": 40})
    return out


def judge(ctx, case, lam, vec, D, msg, tol=1e-9, tag=""):
    L = case["L"]
    n = len(lam)
    ctx.check(np.isfinite(lam).all() and np.isfinite(vec).all(), tag + "finite", msg)
    ctx.check(vec.shape == (n, L * L), tag + "shape", lambda: f"{msg}: eigenvectors {vec.shape} for {n} eigenvalues")
    if vec.shape != (n, L * L):
        return
    ctx.check((np.diff(lam) <= 1e-12).all(), tag + "sorted", lambda: f"{msg}: eigenvalues not decreasing {lam[:5]}")
    ctx.check(lam.min() >= -(0.1 if tag else tol) and lam.max() <= 1 + (0.1 if tag else tol), tag + "unit-interval",
              lambda: f"{msg}: eigenvalues in [{lam.min()}, {lam.max()}]")
    ctx.close(vec.conj() @ vec.T, np.eye(n), tol, tag + "orthonormal", msg)
    E = vec.conj() @ D @ vec.T  # energies and cross energies inside the region
    ctx.close(np.real(np.diag(E)), lam, tol, tag + "energy-fraction", f"{msg}: energy in the region and eigenvalue")
    ctx.close(E, np.diag(np.diag(E)), tol, tag + "orthogonal-in-region", msg)


def run_case(ctx, case):
    import sleplet

    L = case["L"]
    msg = f"{case['kind']} {rg.describe(case)} L={L}"
    if case["kind"] in ("solve", "order"):
        D = o.kernel(L, o.boxes_of(case))
    if case["kind"] == "solve":
        s = rg.build(case)
        lam, vec = np.asarray(s.eigenvalues), np.asarray(s.eigenvectors)
        ctx.check(len(lam) == L * L, "complete", lambda: f"{msg}: {len(lam)} functions")
        judge(ctx, case, lam, vec, D, msg)
        # the best concentration is that of the true operator
        ctx.close(lam, np.sort(np.linalg.eigvalsh(D))[::-1], 1e-9, "spectrum", msg)
        # the functions are fields on the sphere, synthesised from their coefficients
        if case["type"] in ("polar", "gap"):
            orders = np.asarray(s.order)
            _, emm = o.elm(L)
            ctx.check(orders.shape == lam.shape, "orders-reported", msg)
            if orders.shape == lam.shape:
                leak = np.abs(np.where(emm[None, :] == orders[:, None], 0, vec)).max()
                ctx.check(leak < 1e-12, "orders-reported", lambda: f"{msg}: content outside of the reported order {leak}")
                ctx.check(sorted(orders) == sorted(emm), "orders-complete", msg)
            ctx.check((np.asarray(s.mask) == o.mask_of(case, L)).mean() == 1, "mask", msg)
        if ((lam > 1e-6) & (lam < 1 - 1e-6)).any():
            ctx.nontrivial(msg)
        ctx.count("obs:functions judged", len(lam))
        ctx.sample(f"{msg}: N={s.N} first eigenvalues {np.round(lam[:4], 6).tolist()}")
    elif case["kind"] == "order":
        m = case["order"]
        s = sleplet.slepian.SlepianPolarCap(L, case["theta_max"], gap=case["type"] == "gap", order=m)
        lam, vec = np.asarray(s.eigenvalues), np.asarray(s.eigenvectors)
        ctx.check(len(lam) == L - abs(m), "order-functions", lambda: f"{msg} m={m}: {len(lam)} functions instead of {L - abs(m)}")
        judge(ctx, case, lam, vec, D, msg)
        _, emm = o.elm(L)
        i = np.where(emm == m)[0]
        leak = np.abs(np.where(emm[None, :] == m, 0, vec)).max()
        ctx.check(leak < 1e-12, "order-functions", lambda: f"{msg} m={m}: content at other orders {leak}")
        ctx.close(lam, np.sort(np.linalg.eigvalsh(D[np.ix_(i, i)]))[::-1], 1e-9, "order-spectrum", f"{msg} m={m}")
        ctx.nontrivial(f"{msg} m={m}")
    elif case["kind"] == "high":
        m = case["order"]
        s = sleplet.slepian.SlepianPolarCap(L, case["theta_max"], gap=case["type"] == "gap", order=m)
        lam, vec = np.asarray(s.eigenvalues), np.asarray(s.eigenvectors)
        K = o.order_kernel(L, abs(m), o.boxes_of(case))
        ell, emm = o.elm(L)
        i = np.where(emm == m)[0]
        ctx.check(vec.shape == (len(i), L * L) and not np.delete(vec, i, axis=1).any(), "order-functions", f"{msg} m={m}")
        ctx.close(lam, np.sort(np.linalg.eigvalsh(K))[::-1], 1e-9, "order-spectrum", f"{msg} m={m}")
        v = vec[:, i]
        ctx.close(v.conj() @ v.T, np.eye(len(i)), 1e-9, "orthonormal", f"{msg} m={m}")
        ctx.close(v.conj() @ K @ v.T, np.diag(lam), 1e-9, "energy-fraction", f"{msg} m={m}")
        if ((lam > 1e-6) & (lam < 1 - 1e-6)).any():
            ctx.nontrivial(f"{msg} m={m}")
    elif case["kind"] == "mask":
        mask = rg.write_mask(case)
        s = sleplet.slepian.SlepianArbitrary(L, case["name"])
        D = o.mask_kernel(L, mask, 2 * L)
        lam, vec = np.asarray(s.eigenvalues), np.asarray(s.eigenvectors)
        # two eigenvalues that agree to 1e-14 may be given as a complex pair: any orthonormal basis is right
        judge(ctx, case, lam, vec, D, msg, tol=1e-9, tag="mask-")
        ctx.close(lam, np.sort(np.linalg.eigvalsh(D))[::-1], 1e-9, "mask-spectrum", msg)
        ctx.check((np.asarray(s.mask) == mask).all(), "mask-used", msg)
        if ((lam > 1e-6) & (lam < 1 - 1e-6)).any():
            ctx.nontrivial(msg)
        ctx.sample(f"{msg}: mask of {int(mask.sum())} of {mask.size} pixels, N={s.N}")
    else:
        raise core.Skip(case["kind"])
