"""C06: a failing worker is reported, saves nothing wrong and leaks nothing."""

import errno
import importlib
import os
import random
import signal
import sys
import threading
import time

import numpy as np

import core
import forklib as fl
import solvelib as sv

RULE = "a run is non-trivial when the fault was delivered; distinct by problem, number of workers, kind of fault and the step at which it struck"
REQUIRED = {"reported-or-right": 200, "no-shared-memory-left": 200, "next-solve": 200, "nothing-wrong-saved": 200,
            "obs:faults in a worker": 100, "obs:shared memory refused": 20, "obs:interrupts while waiting for workers": 15, "obs:faults in the first solve of a process": 10}
LEVEL = "fault_enumeration"
ENV = {"NUMBA_NUM_THREADS": "2"}


class Custom(Exception):
    pass


FAULTS = [ValueError, MemoryError, TypeError, RuntimeError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration,
          OSError, FileNotFoundError, Custom, SystemExit, ArithmeticError]
CALLS = ["pyssht.inverse", "pyssht.forward", "pyssht.create_ylm", "pyssht.generate_dl", "pyssht.sample_positions", "gmpy2.factorial", "gmpy2.fac", "gmpy2.sqrt",
         "numpy.linalg.eigh", "scipy.sparse.linalg.eigsh", "igl.cotmatrix", "numpy.save", "numpy.load"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for kind in ["polar", "gap", "mask", "mesh"]:
        for i in range(2 if q else 8):
            c = sv.config(rng, kind, 4)
            if kind == "mesh":
                c["nb"] = rng.randint(6, 9)
            else:
                c["L"] = rng.randint(2, 4)
            base = {"conf": c, "sub": rng.randrange(10**9), "ncpu": rng.choice(["1", "2", "4", "9"])}
            out.append({"kind": "step", "n": 14 if q else 80, "w": 4, **base})
            out.append({"kind": "memory", "n": 8 if q else 30, "w": 2, **base})
            out.append({"kind": "call", "w": 3, **base})
            out.append({"kind": "thread", "w": 1, **base})
            out.append({"kind": "interrupt", "n": 5 if q else 30, "w": 3, **base})
    c = sv.config(rng, "box", 3)
    out.append({"kind": "call", "conf": c, "sub": 1, "ncpu": "2", "w": 5})
    # the first solve of a process fails; band-limits that no other case of this check uses, so that nothing is known yet
    for kind, L in (("mask", 5), ("polar", 6), ("gap", 5), ("mesh", 5)):
        c = sv.config(rng, kind, 4)
        c["nb" if kind == "mesh" else "L"] = L
        out.append({"kind": "pristine", "conf": c, "sub": rng.randrange(10**9), "ncpu": rng.choice(["1", "2", "4"]), "n": 7 if q else 40, "w": 3})
    # the two matrices of a mask, one by one
    c = sv.config(rng, "mask", 3)
    out.append({"kind": "memory", "conf": c, "sub": 2, "ncpu": "2", "n": 12, "w": 2})
    return out


class Steps:
    """Counts the lines of the library executed by worker threads; raises at one of them."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.hit = at, exc, 0, None
        self.main = threading.get_ident()
        self.lock = threading.Lock()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO_SRC):
            return None
        if event == "line" and threading.get_ident() != self.main:
            with self.lock:
                k = self.n
                self.n += 1
            if k == self.at:
                self.hit = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} in {frame.f_code.co_name}"
                raise self.exc("injected fault")
        return self.trace

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)


class Interrupt(Steps):
    """The user presses Ctrl-C while the workers are at a step, and the caller waits for them."""

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO_SRC):
            return None
        if event == "line" and threading.get_ident() != self.main:
            with self.lock:
                k = self.n
                self.n += 1
            if k == self.at:
                self.hit = f"interrupt at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} in {frame.f_code.co_name}"
                signal.pthread_kill(self.main, signal.SIGINT)
                time.sleep(0.1)  # the caller notices while there is still work to be done
        return self.trace

    def __enter__(self):
        self.old = signal.signal(signal.SIGINT, signal.default_int_handler)
        return super().__enter__()

    def __exit__(self, *a):
        super().__exit__(*a)
        signal.signal(signal.SIGINT, self.old)


class Patch:
    """Make the k-th call of a function fail."""

    def __init__(self, name, at, exc):
        mod, _, self.attr = name.rpartition(".")
        self.mod = importlib.import_module(mod)
        self.at, self.exc, self.n, self.hit = at, exc, 0, None
        self.name = name

    def __enter__(self):
        self.old = old = getattr(self.mod, self.attr)

        def wrapped(*a, **k):
            i = self.n
            self.n += 1
            if i == self.at:
                self.hit = f"call {i} of {self.name}"
                raise self.exc("injected fault")
            return old(*a, **k)

        setattr(self.mod, self.attr, wrapped)
        return self

    def __exit__(self, *a):
        setattr(self.mod, self.attr, self.old)


class NoMemory:
    """The k-th request for shared memory (a new block, or opening an existing one) fails."""

    def __init__(self, at, code):
        self.at, self.code, self.n, self.hit = at, code, 0, None

    def __enter__(self):
        self.saved = []
        for name in ("multiprocess.shared_memory", "multiprocessing.shared_memory"):
            m = importlib.import_module(name)
            cls, me = m.SharedMemory, self
            old = cls.__init__

            def init(s, *a, _old=old, **k):
                i = me.n
                me.n += 1
                if i == me.at:
                    me.hit = f"request {i} ({'new' if k.get('create') or (len(a) > 1 and a[1]) else 'existing'})"
                    raise OSError(me.code, os.strerror(me.code))
                _old(s, *a, **k)

            cls.__init__ = init
            self.saved.append((cls, old))
        return self

    def __exit__(self, *a):
        for cls, old in self.saved:
            cls.__init__ = old


def run_case(ctx, case):
    conf, rng = case["conf"], random.Random(case["sub"])
    os.environ["NCPU"] = case["ncpu"]
    d = ctx.fresh_data()
    if case["kind"] == "pristine":
        return pristine(ctx, case, conf, rng)
    tag = f"{os.getpid()}"
    fl.shm_prefix(tag)
    ref = sv.solve(conf)
    ctx.check(not fl.shm_of(tag), "no-shared-memory-left", lambda: f"{sv.describe(conf)}: {[f.name for f in fl.shm_of(tag)]} after an undisturbed solve")
    clean(tag)
    files = {f: np.load(d / f) for f in sv.saved(d) if "masks" not in f}
    if case["kind"] == "step":
        ctx.fresh_data()
        with Steps() as s:
            sv.solve(conf)
        n = s.n
        if not n:
            raise core.Gone("no lines seen in workers")
        ctx.count("obs:steps of workers in a solve", n)
        ks = sorted({0, 1, 2, n - 1, n - 2, n // 2} | {rng.randrange(n) for _ in range(case["n"])})
        for k in ks:
            f = rng.choice(FAULTS)
            one(ctx, conf, ref, files, tag, Steps(k, f), f"fault {f.__name__} at step {k} of {n}", "obs:faults in a worker", case["ncpu"])
    elif case["kind"] == "interrupt":
        ctx.fresh_data()
        with Steps() as s:
            sv.solve(conf)
        n = s.n
        if not n:
            raise core.Gone("no lines seen in workers")
        for k in sorted({0, n // 2} | {rng.randrange(n) for _ in range(case["n"])}):
            one(ctx, conf, ref, files, tag, Interrupt(k), f"interrupt at step {k} of {n}", "obs:interrupts while waiting for workers", case["ncpu"])
    elif case["kind"] == "memory":
        for k in range(case["n"]):
            code = rng.choice([errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EACCES, errno.ENOENT])
            one(ctx, conf, ref, files, tag, NoMemory(k, code), f"shared memory request {k} refused ({errno.errorcode[code]})", "obs:shared memory refused", case["ncpu"])
    elif case["kind"] == "call":
        for name in CALLS:
            for k in (0, 1, rng.randint(2, 30)):
                f = rng.choice(FAULTS[:-2])
                one(ctx, conf, ref, files, tag, Patch(name, k, f), f"fault {f.__name__} in call {k} of {name}", "obs:faults in a library call", case["ncpu"])
    elif case["kind"] == "thread":
        for k in range(4):
            one(ctx, conf, ref, files, tag, NoThread(k), f"thread {k} cannot be started", "obs:threads refused", case["ncpu"])
        for bad in ("four", "0", "-2", "1.5"):
            one(ctx, conf, ref, files, tag, BadNumber(bad, case["ncpu"]), f"NCPU={bad}", "obs:number of workers refused", bad)


def pristine(ctx, case, conf, rng):
    """The fault strikes in a process which has solved nothing like it before; it goes on and solves the problem, and one like it."""
    other = dict(conf)
    if conf["type"] == "mask":
        other["name"], other["mseed"] = conf["name"] + "x", conf["mseed"] + 1
    elif conf["type"] == "mesh":
        other["nb"] += 1
    else:
        other["theta_max"] = round(conf["theta_max"] * 0.9, 12)

    def inside(fn):
        ctx.fresh_data()
        for c in (conf, other):
            if c["type"] == "mask":
                sv.rg.write_mask(c)
        status, res, left = fl.run(ctx, fn)
        if not res or "ok" not in res:
            raise (core.Gone if res and res["mismatch"] else core.Skip)(f"{status}: {res}")
        return res["ok"], left

    def count():
        with Steps() as s:
            a = sv.solve(conf)
        return a, sv.solve(other), s.n

    (ref, ref2, n), _ = inside(count)
    faults = [Steps(k, rng.choice(FAULTS)) for k in {rng.randrange(max(n, 1)) for _ in range(case["n"])}] if n else []
    for name in CALLS:
        faults += [Patch(name, k, rng.choice(FAULTS[:-2])) for k in (rng.randint(0, 3), rng.randint(1, 12))]
    for fault in faults:

        def disturbed(fault=fault):
            raised = None
            with fault:
                try:
                    sv.solve(conf)
                except BaseException as e:  # noqa: BLE001
                    if isinstance(e, Exception) and core.harness_mismatch(e) and "injected" not in str(e):
                        raise
                    raised = repr(e)[:200]
            return fault.hit, raised, sv.solve(conf), sv.solve(other)

        (hit, raised, a, b), left = inside(disturbed)
        if not hit:
            continue
        ctx.count("obs:faults in the first solve of a process")
        msg = f"{sv.describe(conf)} NCPU={case['ncpu']}, first solve of a process, {fault.exc.__name__} at {hit} ({'reported' if raised else 'no exception'})"
        ctx.nontrivial(f"{sv.key(conf)} {case['ncpu']} first {hit}")
        sv.compare(ctx, a, ref, conf, "next-solve", f"{msg}: the next solve", short_ok=True)
        sv.compare(ctx, b, ref2, other, "next-solve", f"{msg}: then {sv.describe(other)}", short_ok=True)
        ctx.check(not left, "no-shared-memory-left", f"{msg}: {left} remain")


class BadNumber:
    hit = "NCPU"

    def __init__(self, bad, good):
        self.bad, self.good = bad, good

    def __enter__(self):
        os.environ["NCPU"] = self.bad

    def __exit__(self, *a):
        os.environ["NCPU"] = self.good


class NoThread:
    def __init__(self, at):
        self.at, self.n, self.hit = at, 0, None

    def __enter__(self):
        self.old = old = threading.Thread.start
        me = self

        def start(t):
            i = me.n
            me.n += 1
            if i == me.at:
                me.hit = f"thread {i}"
                raise RuntimeError("can't start new thread")
            return old(t)

        threading.Thread.start = start
        return self

    def __exit__(self, *a):
        threading.Thread.start = self.old


def clean(tag):
    for f in fl.shm_of(tag):
        f.unlink(missing_ok=True)


def one(ctx, conf, ref, files, tag, fault, what, obs, ncpu):
    d = ctx.fresh_data()
    if conf["type"] == "mask":
        sv.rg.write_mask(conf)
    msg = f"{sv.describe(conf)} NCPU={ncpu}: {what}"
    got = raised = None
    with fault:
        try:
            got = sv.solve(conf)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, Exception) and core.harness_mismatch(e) and "injected" not in str(e):
                raise
            raised = e
    if not fault.hit:
        return
    ctx.count(obs)
    ctx.nontrivial(f"{sv.key(conf)} {ncpu} {what} {fault.hit}")
    msg += f" ({fault.hit})"
    if raised is None:
        sv.compare(ctx, got, ref, conf, "reported-or-right", f"{msg}: no exception", short_ok=True)
        ctx.count("obs:right result in spite of the fault")
    else:
        ctx.count("reported-or-right")
    raised = None
    left = [f.name for f in fl.shm_of(tag)]
    ctx.check(not left, "no-shared-memory-left", f"{msg}: {left} remain")
    clean(tag)
    for f in sv.saved(d):
        if f in files:
            try:
                a = np.load(d / f)
            except Exception as e:  # noqa: BLE001
                ctx.check(False, "nothing-wrong-saved", f"{msg}: {f} cannot be read {e}")
                continue
            ctx.same(a, files[f], "nothing-wrong-saved", f"{msg}: content of {f}")
    ctx.count("nothing-wrong-saved")
    nxt = ctx.accepts(lambda: sv.solve(conf), "next-solve", f"{msg}: the next solve")
    if nxt is not None:
        sv.compare(ctx, nxt, ref, conf, "next-solve", f"{msg}: the next solve", short_ok=True)
    left = [f.name for f in fl.shm_of(tag)]
    ctx.check(not left, "no-shared-memory-left", f"{msg}: {left} remain after the next solve")
    clean(tag)
