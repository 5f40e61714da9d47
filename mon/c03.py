"""C03: saved solutions are transparent."""

import itertools
import pathlib
import random

import numpy as np

import childlib as ch
import core
import solvelib as sv

RULE = "a solve is non-trivial when files saved earlier were in the data folder; distinct by problem and set of saved files present"
REQUIRED = {"history": 100, "reload": 20, "fresh-process": 4, "subset": 30, "precision": 10, "sub-basis": 3}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(14 if q else 120):
        base = [sv.config(rng, k, 5 if q else 8) for k in rng.sample(["polar", "gap", "box", "mask", "mesh"], 2)]
        confs = list(base)
        for b in base:
            for _ in range(2 if q else 3):
                confs.append(sv.near(rng, rng.choice([b, confs[-1]])))
        out.append({"kind": "history", "confs": confs, "steps": 16 if q else 40, "sub": rng.randrange(10**9), "w": 3})
    for kind in ["polar", "gap", "box", "mask", "mesh"]:
        for _ in range(1 if q else 5):
            out.append({"kind": "subset", "conf": sv.config(rng, kind, 6 if q else 9), "w": 2})
    for i in range(2 if q else 10):
        out.append({"kind": "process", "confs": [sv.config(rng, k, 6) for k in ["polar", "gap", "box", "mask", "mesh"]], "w": 5})
    # above the band-limit at which polar caps are saved in part
    out.append({"kind": "subset", "conf": {"type": "polar", "L": 17, "theta_max": rng.uniform(0.3, 0.5)}, "w": 9})
    # problems with names that look alike
    out.append({"kind": "alike", "sub": rng.randrange(10**9), "w": 2})
    out.append({"kind": "order", "sub": rng.randrange(10**9), "w": 2})
    return out


def reference(ctx, c):
    ctx.fresh_data()
    if not hasattr(ctx, "refs"):
        ctx.refs = {}
    k = sv.key(c)
    if k not in ctx.refs:
        ctx.refs[k] = sv.solve(c)
        r = ctx.refs[k]
        ctx.count("obs:reference solves")
        ctx.check(np.isfinite(r["eigenvalues"]).all(), "precision", k)
    return ctx.refs[k]


def run_case(ctx, case):
    rng = random.Random(case.get("sub", 0))
    if case["kind"] == "history":
        history(ctx, case["confs"], case["steps"], rng)
    elif case["kind"] == "subset":
        subsets(ctx, case["conf"])
    elif case["kind"] == "process":
        processes(ctx, case["confs"])
    elif case["kind"] == "alike":
        t = rng.uniform(0.3, 1.2)
        d = np.deg2rad
        confs = [{"type": "polar", "L": L, "theta_max": th} for L in (4, 5) for th in (float(d(4)), float(d(40)), float(d(40.5)), float(d(40.6)), t, t * (1 + 1e-6))]
        confs += [{"type": "gap", "L": 4, "theta_max": th} for th in (float(d(40)), float(d(40.5)))]
        confs += [{"type": "box", "L": 4, "theta_min": float(d(a)), "theta_max": float(d(b)), "phi_min": float(d(e)), "phi_max": float(d(f))}
                  for a, b, e, f in ((10, 20, 30, 40), (10, 20, 30, 40.4), (10, 20.2, 30, 40), (1, 20, 30, 40), (10, 20, 3, 40), (0, 20, 30, 40), (10, 20, 0, 360), (10.3, 20, 30, 40))]
        # band-limits of one Shannon number
        confs += [{"type": "box", "L": L, "theta_min": float(d(40)), "theta_max": float(d(90)), "phi_min": 0.0, "phi_max": float(d(45))} for L in (3, 4, 5)]
        confs += [{"type": "polar", "L": L, "theta_max": float(d(25))} for L in (4, 5)] + [{"type": "gap", "L": L, "theta_max": float(d(18))} for L in (4, 5)]
        confs += [{"type": "mask", "L": L, "name": n, "shape": "blob", "mseed": s} for L, n, s in ((3, "a", 1), (3, "ab", 6), (4, "a", 1), (3, "A", 7), (3, "a.b", 16), (3, "a.c", 18), (3, "theta10-20_phi30-40", 38))]
        confs += [{"type": "mesh", "name": n, "nb": nb} for n, nb in (("bird", 6), ("bird", 7), ("cheetah", 6), ("bird", 60))]
        ctx.keys_total = len(confs)
        history(ctx, confs, 2 * len(confs), rng, delete=0.1)
    elif case["kind"] == "order":
        orders(ctx, rng)
    else:
        raise core.Skip(case["kind"])


def history(ctx, confs, steps, rng, delete=0.3):
    refs = [reference(ctx, c) for c in confs]
    shared = ctx.fresh_data()
    seq = list(range(len(confs))) + [rng.randrange(len(confs)) for _ in range(steps)]
    rng.shuffle(seq)
    done = []
    for step, i in enumerate(seq):
        before = sv.saved(shared)
        if rng.random() < delete and before:
            gone = rng.sample([f for f in before if "masks" not in f] or before, 1)
            for f in gone:
                if "masks" not in f:
                    (shared / f).unlink()
        before = sv.saved(shared)
        got = sv.solve(confs[i])
        sv.compare(ctx, got, refs[i], confs[i], "history", f"step {step} after {done[-6:]}: {sv.describe(confs[i])}")
        if i in done:
            ctx.count("reload")
        done.append(i)
        if before:
            ctx.nontrivial(f"{sv.describe(confs[i])} with {len(before)} files {hash(tuple(before)) % 10**6}")
    ctx.sample(f"{steps} solves of {[sv.describe(c) for c in confs][:4]}, {len(sv.saved(shared))} files saved")


def own_files(ctx, c):
    """Content of the data folder after solving a problem in an empty one."""
    d = ctx.fresh_data()
    ref = sv.solve(c)
    return ref, {f: (d / f).read_bytes() for f in sv.saved(d)}


def subsets(ctx, c):
    ref, files = own_files(ctx, c)
    names = sorted(files)
    ctx.check(len([f for f in names if "masks" not in f]) >= 2, "saved", lambda: f"{sv.describe(c)}: saved {names}")
    # the saved arrays are the solution, bit by bit
    for f in names:
        a = np.load(pathlib.Path(ctx.scratch) / f"data{ctx.n_dir}" / f)
        hit = any(np.array_equal(a, v) or np.array_equal(a, v[:ref["N"]]) for v in ref.values() if isinstance(v, np.ndarray))
        ctx.check(hit or "masks" in f, "precision", lambda: f"{sv.describe(c)}: content of {f} is no part of the solution")
        ctx.check(a.dtype in (np.float64, np.complex128, np.int64, np.bool_), "precision", lambda: f"{f} has type {a.dtype}")
    must = [f for f in names if "masks" in f]
    free = [f for f in names if f not in must]
    for k in range(len(free) + 1):
        for sub in itertools.combinations(free, k):
            d = ctx.fresh_data()
            for f in must + list(sub):
                (d / f).write_bytes(files[f])
            for rep in (1, 2):  # the second time everything is there
                sv.compare(ctx, sv.solve(c), ref, c, "subset", f"{sv.describe(c)} with {list(sub)}, {rep}. time")
            ctx.nontrivial(f"{sv.describe(c)} with {sorted(sub)}")
            ctx.check(set(sv.saved(d)) >= set(names), "subset", lambda: f"{sv.describe(c)} with {sub}: saved {sv.saved(d)} instead of {names}")
    ctx.sample(f"{sv.describe(c)}: all {2 ** len(free)} subsets of {free}")


def processes(ctx, confs):
    """Solved in a process each, one after the other, with one data folder; then again."""
    refs = [reference(ctx, c) for c in confs]
    shared = ctx.fresh_data()
    for rnd in (1, 2):
        rc, res, log = ch.run(ctx, "c03", "solve_all", {"confs": confs}, data=shared)
        got = unpack(res, rc, log)
        for c, g, r in zip(confs, got, refs, strict=True):
            sv.compare(ctx, g, r, c, "fresh-process", f"{sv.describe(c)} in process {rnd}")
            if rnd == 2:
                ctx.count("reload")
                ctx.nontrivial(f"{sv.describe(c)} in another process")
    # what another process saved, in this one
    for c, r in zip(confs, refs, strict=True):
        sv.compare(ctx, sv.solve(c), r, c, "fresh-process", f"{sv.describe(c)} saved by another process")


def unpack(res, rc, log):
    if res is None:
        raise RuntimeError(f"child ended with {rc}: {log[-400:]}")
    if "error" in res:
        if res["mismatch"] or res["infra"]:
            raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
        raise RuntimeError(res["error"])
    return res["ok"]


def solve_all(confs):
    return [sv.solve(c) for c in confs]


def orders(ctx, rng):
    """Solutions for one order, with the complete solution saved or not."""
    import sleplet

    for _ in range(4):
        L, t, gap = rng.randint(3, 7), rng.uniform(0.2, 1.4), rng.random() < 0.5
        m = rng.randint(-(L - 1), L - 1)
        make = lambda **kw: sleplet.slepian.SlepianPolarCap(L, t, gap=gap, **kw)  # noqa: B023, E731
        ctx.fresh_data()
        one = make(order=m)
        d = ctx.fresh_data()
        whole = make()
        names = sv.saved(d)
        again = make(order=m)
        for k in ("eigenvalues", "eigenvectors"):
            ctx.same(getattr(again, k), getattr(one, k), "sub-basis", f"order {m} of L={L} cap {t} gap {gap}: {k} after the complete solution")
        ctx.check(np.asarray(again.order) == m and again.N == one.N == whole.N, "sub-basis", f"order {m}: order or N")
        ctx.check(sv.saved(d) == names, "sub-basis", "files saved for a single order")
        # and the complete one after it
        ctx.fresh_data()
        make(order=m)
        w2 = make()
        for k in ("eigenvalues", "eigenvectors", "order"):
            ctx.same(np.asarray(getattr(w2, k)), np.asarray(getattr(whole, k)), "sub-basis", f"complete solution after order {m}: {k}")
        ctx.nontrivial(f"order {m} L={L} {t} {gap}")
