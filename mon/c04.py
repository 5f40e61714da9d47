"""C04: a crash while saving never leaves a solution that is later trusted."""

import errno
import os
import random
import resource
import signal
import sys
import threading

import numpy as np

import core
import earthlib
import forklib as fl
import solvelib as sv

RULE = "a run is non-trivial when the injected crash or fault took effect; distinct by problem, operation on the folder, its number and the kind of fault"
REQUIRED = {"recovers": 150, "final-files-complete": 150, "obs:crash at an operation": 40, "obs:crash inside a write": 30,
            "obs:fault at an operation": 40, "obs:fault inside a write": 30}
LEVEL = "fault_enumeration"
ENV = {"NUMBA_DISABLE_JIT": "1"}  # compiled parallel code does not survive a fork
DIED = 77


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for kind in ["polar", "gap", "box", "mask", "mesh", "earth"]:
        for _ in range(1 if q else 4):
            if kind == "earth":
                c = {"type": "mask", "L": rng.randint(3, 4), "name": rng.choice(["africa", "south_america"]), "earth": rng.randrange(1000), "shape": "earth", "mseed": 0}
            else:
                c = sv.config(rng, kind, 4)
                c["L" if kind != "mesh" else "nb"] = rng.randint(3, 4 if q else 5) if kind != "mesh" else rng.randint(6, 9)
            for mode in ("operation", "write"):
                out.append({"kind": mode, "conf": c, "w": 5})
            out.append({"kind": "repeated", "conf": c, "sub": rng.randrange(10**9), "rounds": 4 if q else 30, "w": 2})
            out.append({"kind": "moment", "conf": c, "sub": rng.randrange(10**9), "rounds": 6 if q else 40, "w": 2})
    return out


# ---------------------------------------------------------------- one run in a child
class Hook:
    """Counts the operations on a folder and acts at one of them."""

    def __init__(self, folder, at=None, act=None):
        self.folder, self.at, self.act, self.n, self.log, self.on = str(folder), at, act, 0, [], True
        self.lock = threading.Lock()

    def __call__(self, event, args):
        if not self.on or event not in ("open", "os.rename", "os.remove", "os.link", "os.truncate", "os.mkdir", "os.symlink", "shutil.move", "shutil.copyfile"):
            return
        paths = [a for a in args if isinstance(a, str | bytes | os.PathLike)]
        names = [os.fsdecode(p) for p in paths]
        if not any(n.startswith(self.folder) for n in names):
            return
        with self.lock:
            k = self.n
            self.n += 1
            mode = "" if event != "open" else str(args[1]) + ("w" if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR) else "r")
            self.log.append((event, mode, [os.path.basename(n) for n in names]))
        if k == self.at:
            if self.act == "die":
                os._exit(DIED)
            raise OSError(errno.EIO, "injected input/output error", names[0])


def solve_hooked(conf, folder, at=None, act=None):
    h = Hook(folder, at, act)
    sys.addaudithook(h)
    try:
        r = sv.solve(conf)
        return {"result": r, "log": h.log, "n": h.n}
    except Exception as e:  # noqa: BLE001
        if core.harness_mismatch(e):
            raise
        return {"raised": f"{type(e).__name__}: {str(e)[:200]}", "log": h.log, "n": h.n}
    finally:
        h.on = False


def solve_limited(conf, limit, act):
    """No file can grow beyond the limit: writing fails, or kills the process in the middle."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if act == "die" else signal.SIG_IGN)
    # shared memory is kept in files of a kind as well
    import multiprocess.shared_memory as ms

    class Unlimited(ms.SharedMemory):
        def __init__(self, *a, **k):
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            try:
                super().__init__(*a, **k)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))

    ms.SharedMemory = Unlimited
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            r = sv.solve(conf)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        return {"result": r}
    except Exception as e:  # noqa: BLE001
        if core.harness_mismatch(e):
            raise
        return {"raised": f"{type(e).__name__}: {str(e)[:200]}"}


def solve_timed(conf, delay):
    t = threading.Timer(delay, os._exit, (DIED,))
    t.daemon = True
    t.start()
    r = sv.solve(conf)
    t.cancel()
    return {"result": r}


# ---------------------------------------------------------------- judging
def setup(ctx, conf):
    d = ctx.fresh_data()
    if "earth" in conf:
        earthlib.populate(ctx, conf["earth"])
    return d


def solve_fix(conf):
    """The regions of the Earth use their own mask."""
    return sv.solve(conf)


def final_files(ctx, folder, files, msg):
    for f, ref in files.items():
        p = folder / f
        if not p.exists():
            ctx.count("final-files-complete")
            continue
        try:
            a = np.load(p)
        except Exception as e:  # noqa: BLE001
            ctx.check(False, "final-files-complete", f"{msg}: {f} ({p.stat().st_size} bytes) cannot be read: {type(e).__name__}: {str(e)[:200]}")
            continue
        ctx.same(a, ref, "final-files-complete", f"{msg}: content of {f}")


def recover(ctx, conf, folder, files, ref, msg):
    final_files(ctx, folder, files, msg)
    ctx.use_data(folder)
    got = ctx.accepts(lambda: sv.solve(conf), "recovers", f"{msg}: next solve")
    if got is not None:
        sv.compare(ctx, got, ref, conf, "recovers", f"{msg}: next solve", short_ok=True)
        final_files(ctx, folder, files, f"{msg}, after the next solve")
        again = ctx.accepts(lambda: sv.solve(conf), "recovers", f"{msg}: solve after the next")
        if again is not None:
            sv.compare(ctx, again, ref, conf, "recovers", f"{msg}: solve after the next", short_ok=True)


def outcome(ctx, st, res, conf, ref, msg):
    """What the disturbed solve itself said: an exception or the right result."""
    if st == "timeout":
        raise core.Skip("child hangs")
    if res and res.get("mismatch"):
        raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
    r = (res or {}).get("ok") or {}
    if "result" in r:
        sv.compare(ctx, r["result"], ref, conf, "disturbed-solve", msg, short_ok=True)
    return r


def run_case(ctx, case):
    conf = case["conf"]
    if conf.get("shape") == "earth":
        # the masks are computed from the map, not written by the harness
        sv.rg.write_mask = lambda r, data=None: None if "earth" in r else WRITE(r, data)
    # reference, with the files it saves
    d = setup(ctx, conf)
    before = set(os.listdir(d))
    ref = sv.solve(conf)
    files = {f: np.load(d / f) for f in sv.saved(d) if f not in before}
    if conf["type"] == "mask" and "earth" not in conf:
        files = {f: a for f, a in files.items() if "masks" not in f}
    ctx.check(len(files) >= 2, "saved", lambda: f"{sv.describe(conf)}: saved {list(files)}")
    rng = random.Random(case.get("sub", 0))
    {"operation": operations, "write": writes, "repeated": repeated, "moment": moments}[case["kind"]](ctx, case, conf, files, ref, rng)


WRITE = sv.rg.write_mask


def dry(ctx, conf):
    d = setup(ctx, conf)
    if conf["type"] == "mask":
        sv.rg.write_mask(conf)
    st, res, _ = fl.run(ctx, lambda: solve_hooked(conf, d))
    if st != 0 or "ok" not in (res or {}) or "result" not in res["ok"]:
        raise RuntimeError(f"undisturbed solve in a child: {st} {res and (res.get('error') or res['ok'].get('raised'))}")
    return res["ok"]["log"]


def operations(ctx, case, conf, files, ref, rng):
    log = dry(ctx, conf)
    ctx.count("obs:operations on the folder in a solve", len(log))
    for k, (event, mode, names) in enumerate(log):
        for act in ("die", "fault"):
            msg = f"{sv.describe(conf)} {act} at operation {k} ({event} {mode} {names})"
            d = setup(ctx, conf)
            st, res, _ = fl.run(ctx, lambda: solve_hooked(conf, d, k, act))  # noqa: B023
            outcome(ctx, st, res, conf, ref, msg)
            if act == "die":
                ctx.count("obs:crash at an operation", int(st == DIED))
            else:
                ctx.count("obs:fault at an operation", int(bool(res) and (res["ok"]["n"] > k)))
            recover(ctx, conf, d, files, ref, msg)
            ctx.nontrivial(msg)
    ctx.sample(f"{sv.describe(conf)}: operations {[(e, n) for e, _, n in log][:12]}")


def writes(ctx, case, conf, files, ref, rng):
    sizes = {f: a.nbytes + 128 for f, a in files.items()}
    limits = {0, 1, 10, 64, 127, 128, 129}
    for s in sizes.values():
        limits |= {s // 2, s - 8, s - 1, s}
    for limit in sorted(limits):
        for act in ("die", "fault"):
            msg = f"{sv.describe(conf)} {act} in writing beyond {limit} bytes"
            d = setup(ctx, conf)
            if conf["type"] == "mask":
                sv.rg.write_mask(conf)
            st, res, _ = fl.run(ctx, lambda: solve_limited(conf, limit, act))  # noqa: B023
            r = outcome(ctx, st, res, conf, ref, msg)
            hit = st == -signal.SIGXFSZ if act == "die" else "raised" in r
            ctx.count("obs:crash inside a write" if act == "die" else "obs:fault inside a write", int(hit))
            recover(ctx, conf, d, files, ref, msg)
            if hit:
                ctx.nontrivial(msg)
    ctx.sample(f"{sv.describe(conf)}: file sizes {sorted(sizes.values())}")


def repeated(ctx, case, conf, files, ref, rng):
    """Several crashes, one after another, with the same folder."""
    n = len(dry(ctx, conf))
    for i in range(case["rounds"]):
        d = setup(ctx, conf)
        seq = []
        for _ in range(rng.randint(2, 4)):
            ctx.use_data(d)
            if rng.random() < 0.6:
                k, act = rng.randrange(n + 2), rng.choice(["die", "fault"])
                st, res, _ = fl.run(ctx, lambda: solve_hooked(conf, d, k, act))  # noqa: B023
                seq.append(f"{act} at operation {k}")
            else:
                k, act = rng.choice([1, 64, 128, 200, 300, 1000]), rng.choice(["die", "fault"])
                if conf["type"] == "mask":
                    sv.rg.write_mask(conf)
                st, res, _ = fl.run(ctx, lambda: solve_limited(conf, k, act))  # noqa: B023
                seq.append(f"{act} beyond {k} bytes")
            outcome(ctx, st, res, conf, ref, f"{sv.describe(conf)} after {seq}")
        recover(ctx, conf, d, files, ref, f"{sv.describe(conf)} after {seq}")
        ctx.nontrivial(f"{sv.describe(conf)} after {seq}")


def moments(ctx, case, conf, files, ref, rng):
    """Death at an arbitrary moment."""
    import time

    d = setup(ctx, conf)
    if conf["type"] == "mask":
        sv.rg.write_mask(conf)
    t0 = time.time()
    fl.run(ctx, lambda: solve_timed(conf, 60))
    span = time.time() - t0
    for i in range(case["rounds"]):
        d = setup(ctx, conf)
        if conf["type"] == "mask":
            sv.rg.write_mask(conf)
        delay = rng.random() * span
        st, res, _ = fl.run(ctx, lambda: solve_timed(conf, delay))  # noqa: B023
        outcome(ctx, st, res, conf, ref, "death at some moment")
        ctx.count("obs:death at a moment", int(st == DIED))
        recover(ctx, conf, d, files, ref, f"{sv.describe(conf)} died at some moment")
        if st == DIED:
            ctx.nontrivial(f"{sv.describe(conf)} moment {i}")
