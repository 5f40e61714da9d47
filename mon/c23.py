"""C23: concurrent clients of one data folder all get sequential results."""

import hashlib
import os
import pathlib
import pickle
import random
import sys
import threading
import time

import numpy as np

import childlib as ch
import core
import earthlib
import forklib
import solvelib as sv

RULE = "a round is non-trivial when at least two clients touched the same file of the data folder; distinct by the order in which the clients opened and renamed its files"
REQUIRED = {"client": 100, "result": 400, "folder": 60, "watch": 50, "afterwards": 20, "obs:rounds without a data folder": 3}
JOBS = 4
CASE_TIMEOUT = {"quick": 240, "thorough": 900}


def cases(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(6 * k):
        out.append({"kind": "round", "procs": rng.randint(3, 6), "threads": 1, "how": "fork", "sub": rng.randrange(10**9), "rounds": 2, "w": 3})
    for i in range(4 * k):
        out.append({"kind": "round", "procs": 1, "threads": rng.randint(3, 8), "how": "fork", "sub": rng.randrange(10**9), "rounds": 2, "w": 3})
    for i in range(4 * k):
        out.append({"kind": "round", "procs": 3, "threads": 3, "how": "fork", "sub": rng.randrange(10**9), "rounds": 2, "w": 4})
    for i in range(3 * k):  # the data folder is not there yet
        out.append({"kind": "round", "procs": rng.randint(2, 5), "threads": rng.randint(1, 3), "how": "fork", "absent": True, "sub": rng.randrange(10**9), "rounds": 3, "w": 3})
    for i in range(2 * k):  # masks of different band-limits in one process
        out.append({"kind": "round", "procs": rng.choice([1, 1, 2]), "threads": rng.randint(4, 6), "how": "fork", "of": "masks", "sub": rng.randrange(10**9), "rounds": 2, "w": 4})
    for i in range(1 * k):
        out.append({"kind": "round", "procs": 4, "threads": 2, "how": "fresh", "sub": rng.randrange(10**9), "rounds": 1, "w": 9})
    return out


# ---------------------------------------------------------------- clients
_armed = []


def arm(data, seed, delay):
    """Log what is opened and renamed in the data folder, and hold the client up there now and then."""
    log, rng, lock = [], random.Random(seed), threading.Lock()
    data = str(data)

    def hook(event, args):
        if event in ("os.chdir", "os.putenv", "os.unsetenv"):  # what threads of a process share
            time.sleep(0.003)
            return
        if event not in ("open", "os.rename", "os.mkdir") or not args or not isinstance(args[0], str | os.PathLike):
            return
        p = os.fspath(args[0])
        if not p.startswith(data) and not (event == "os.mkdir" and data.startswith(p)):
            return
        with lock:
            t = rng.random()
            log.append((time.monotonic_ns(), threading.get_ident(), event.removeprefix("os."), os.path.basename(p)))
        if t < delay or event == "os.mkdir":
            time.sleep(t / max(delay, t) * 0.01)

    sys.addaudithook(hook)
    return log


def work(conf):
    if conf["type"] == "continent":
        import funcs as fc
        import sleplet

        L = conf["L"]
        s = sleplet.slepian.SlepianArbitrary(L, conf["name"])
        f = fc.fn({"africa": "Africa", "south_america": "SouthAmerica"}[conf["name"]])(L)
        import sleplet._mask_methods as mm

        m = mm.create_mask_region(L, sleplet.slepian.Region(mask_name=conf["name"]))
        return {"N": s.N, "eigenvalues": np.asarray(s.eigenvalues), "eigenvectors": np.asarray(s.eigenvectors), "mask": np.asarray(s.mask), "land": np.asarray(m).astype(bool),
                "power": np.round(np.abs(f.coefficients), 6)}
    return sv.solve(conf)


def client(data, plans, seed, delay, start_at):
    """One process: a thread per plan; each solves its problems in order."""
    os.environ["XDG_DATA_HOME"] = str(data)
    log = arm(data, seed, delay)
    out = [[] for _ in plans]
    idents = [None] * len(plans)
    while time.time() < start_at:
        time.sleep(0.001)
    gate = threading.Barrier(len(plans))

    def run(i):
        idents[i] = threading.get_ident()
        gate.wait(60)
        for c in plans[i]:
            try:
                out[i].append(("ok", work(c)))
            except Exception as e:  # noqa: BLE001
                out[i].append(("raised", f"{type(e).__name__}: {str(e)[:300]} {core.where(e)}", core.harness_mismatch(e) or core.infrastructure(e)))

    if len(plans) == 1:
        run(0)
    else:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(len(plans))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return {"out": out, "log": [(t, idents.index(i) if i in idents else -1, op, f) for t, i, op, f in log]}


def fork_client(path, *args):
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            forklib.shm_prefix(os.getpid())
            res = client(*args)
            path.write_bytes(pickle.dumps(res))
            code = 0
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    return pid


class Watcher(threading.Thread):
    """Reads every file of the folder again and again while the clients are at work."""

    def __init__(self, data):
        super().__init__(daemon=True)
        self.data, self.stop, self.reads, self.bad = pathlib.Path(data), False, 0, []

    def run(self):
        while not self.stop:
            for f in list(self.data.iterdir()) if self.data.exists() else []:
                if f.suffix != ".npy" or f.name.startswith("."):
                    continue
                try:
                    np.load(f)
                except FileNotFoundError:
                    self.bad.append(f"{f.name} vanished")
                except Exception as e:  # noqa: BLE001
                    self.bad.append(f"{f.name}: {type(e).__name__}: {e}")
                self.reads += 1
            time.sleep(0.002)


# ---------------------------------------------------------------- rounds
def problems(rng, n, absent=False, of=None):
    out = []
    if of == "masks":
        a = sv.config(rng, "mask", 5)
        b = {**a, "L": a["L"] + 1, "name": a["name"] + "x", "mseed": a["mseed"] + 1}
        return [a, b, {**b, "L": max(2, a["L"] - 1), "name": a["name"] + "y"}]
    kinds = rng.sample(["polar", "gap", "box", "mesh"] + ([] if absent else ["mask", "continent"]), n)
    for k in kinds:
        if k == "continent":
            out.append({"type": "continent", "name": rng.choice(["africa", "south_america"]), "L": rng.randint(4, 6)})
        else:
            c = sv.config(rng, k, 5)
            out.append(c)
            if rng.random() < 0.4 and k != "mask":
                out.append(sv.near(rng, c))
    return out


def alone(ctx, conf, prepare):
    d = ctx.fresh_data()
    prepare(d)
    before = {f.name for f in d.iterdir()}
    status, res, _ = forklib.run(ctx, lambda: work(conf))
    if status != 0 or res is None or "error" in res:
        if res and res.get("mismatch"):
            raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
        raise core.Skip(f"reference solve: {status} {res}")
    return res["ok"], {f.name: f.read_bytes() for f in d.iterdir() if f.name not in before}


def run_case(ctx, case):
    rng = random.Random(case["sub"])
    for r in range(case["rounds"]):
        one_round(ctx, case, rng, r)


def one_round(ctx, case, rng, r):
    import regions as rg

    absent = case.get("absent", False)
    confs = problems(rng, rng.randint(1, 2) if absent else rng.randint(2, 3), absent, case.get("of"))
    esub = rng.randrange(1000)

    def prepare(d):
        if absent:
            return
        earthlib.write(d, esub, 16)
        for c in confs:
            if c["type"] == "mask":
                rg.write_mask(c, d)

    refs, files = [], {}
    for c in confs:
        res, fs = alone(ctx, c, prepare)
        refs.append(res)
        files.update(fs)
    data = ctx.fresh_data()
    prepare(data)
    if absent:
        data = data / "not" / "there" if rng.random() < 0.5 else data / "yet"
        ctx.use_data(data)
        ctx.count("obs:rounds without a data folder")
    # a part of the files may be there already
    for n in sorted(files):
        if not absent and not case.get("of") and rng.random() < rng.choice([0, 0, 0.3]):
            (data / n).write_bytes(files[n])
    os.environ["NCPU"] = str(rng.choice([1, 2, 3]))
    delay = rng.choice([0.0, 0.3, 0.8])
    # every client solves every problem; most in the same order so that they meet
    base = list(range(len(confs)))
    plans = []
    for _ in range(case["procs"] * case["threads"]):
        p = base[:]
        if rng.random() < (0.8 if case.get("of") else 0.3):
            rng.shuffle(p)
        plans.append(p + (p if rng.random() < 0.3 else []))
    w = Watcher(data)
    w.start()
    T = case["threads"]
    start_at = time.time() + (0.05 if case["how"] == "fork" else 3)
    groups = [plans[i * T:(i + 1) * T] for i in range(case["procs"])]
    results = []
    if case["how"] == "fork":
        pids = []
        for i, g in enumerate(groups):
            path = ctx.scratch / f"client{r}-{i}.pkl"
            pids.append((fork_client(path, data, [[confs[k] for k in p] for p in g], rng.randrange(10**6), delay, start_at), path))
        end = time.time() + 150
        for pid, path in pids:
            st = None
            while st is None:
                p, s = os.waitpid(pid, os.WNOHANG)
                if p:
                    st = os.waitstatus_to_exitcode(s)
                elif time.time() > end:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    st = "timeout"
                else:
                    time.sleep(0.005)
            for f in forklib.shm_of(pid):
                f.unlink(missing_ok=True)
            if st == -9 or st == "timeout":
                w.stop = True
                raise core.Skip(f"client ended with {st}")
            ctx.check(st == 0, "client", f"a client process died with status {st}")
            results.append(pickle.loads(path.read_bytes()) if path.exists() else None)  # noqa: S301
    else:
        hs = [ch.start(ctx, "c23", "child_client", {"data": str(data), "plans": [[confs[k] for k in p] for p in g], "seed": rng.randrange(10**6), "delay": delay, "start_at": start_at}, data=data)
              for g in groups]
        for h in hs:
            rc, res, tail = ch.finish(h)
            if res is None or "error" in (res or {}):
                if res and (res["mismatch"] or res["infra"]):
                    w.stop = True
                    raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
                ctx.check(False, "client", f"a client process failed: {rc} {res and res['error']} {tail[-300:]}")
                continue
            ctx.count("client")
            results.append(res["ok"])
    w.stop = True
    w.join()
    what = f"{case['procs']} processes x {case['threads']} threads ({case['how']}), problems {[describe(c) for c in confs]}, delay {delay}"
    ctx.count("watch", w.reads)
    for b in w.bad[:3]:
        ctx.violate("watch", f"{what}: a reader found {b}")
    # every client's results are those of a client alone
    for g, res in zip(groups, results, strict=False):
        if res is None:
            continue
        for p, out in zip(g, res["out"], strict=True):
            ctx.check(len(out) == len(p), "client", f"{what}: a client finished {len(out)} of {len(p)}")
            for k, o in zip(p, out, strict=False):
                if o[0] == "raised":
                    if o[2]:
                        ctx.skips.append(f"client: {o[1]}")
                    else:
                        ctx.violate("result", f"{what}: solving {describe(confs[k])} raised {o[1]}")
                else:
                    judge(ctx, o[1], refs[k], confs[k], what)
    # the folder
    if not data.exists():
        ctx.violate("folder", f"{what}: there is no data folder afterwards")
        return
    now = {f.name: f.read_bytes() for f in data.iterdir() if f.suffix == ".npy" and not f.name.startswith(".")}
    for n, b in files.items():
        ctx.check(now.get(n) == b, "folder", f"{what}: {n} {'has other content' if n in now else 'is missing'} afterwards")
    rest = sorted(f.name for f in data.iterdir() if f.name not in files and f.suffix != ".mat" and not f.name.startswith("slepian_masks"))
    ctx.check(not rest, "folder", f"{what}: left behind {rest}")
    # and the next client finds them
    for c, ref in zip(confs, refs, strict=True):
        status, res, _ = forklib.run(ctx, lambda c=c: work(c))
        if status == 0 and res and "ok" in res:
            judge(ctx, res["ok"], ref, c, f"{what}, afterwards", "afterwards")
        elif res and not res.get("mismatch"):
            ctx.violate("afterwards", f"{what}: solving {describe(c)} afterwards: {status} {res.get('error')}")
    # what was interleaved
    events, touched = [], {}
    for i, res in enumerate(results):
        for t, th, op, f in (res or {"log": []})["log"]:
            events.append((t, f"{i}.{th}", op, f))
            touched.setdefault(f, set()).add((i, th))
    events.sort()
    ctx.count("obs:file events", len(events))
    ctx.count("obs:switches between clients", sum(a[1] != b[1] for a, b in zip(events, events[1:], strict=False)))
    if any(len(v) > 1 for v in touched.values()):
        ctx.nontrivial(hashlib.sha256(repr([e[1:] for e in events]).encode()).hexdigest()[:16])
    ctx.sample(f"{what}: {len(events)} file events, {w.reads} reads by the watcher")


def child_client(data, plans, seed, delay, start_at):
    return client(pathlib.Path(data), plans, seed, delay, start_at)


def describe(c):
    return f"{c['name']} L={c['L']}" if c["type"] == "continent" else sv.describe(c)


def judge(ctx, got, ref, conf, what, monitor="result"):
    if conf["type"] == "continent":
        for k in ("land", "power", "mask"):
            ctx.close(np.asarray(got[k], float), np.asarray(ref[k], float), 1e-5 if k == "power" else 0, monitor, f"{what}: {describe(conf)} {k}")
        ctx.same(got["eigenvalues"], ref["eigenvalues"], monitor, f"{what}: {describe(conf)} eigenvalues")
        n = ref["N"]
        ctx.same(got["eigenvectors"][:n], ref["eigenvectors"][:n], monitor, f"{what}: {describe(conf)} functions")
        return
    sv.compare(ctx, got, ref, conf, monitor, f"{what}: {describe(conf)}", short_ok=True)
