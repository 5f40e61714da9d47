"""C05: results do not depend on the number of workers or their schedule."""

import hashlib
import logging
import os
import random
import sys
import threading
import time

import numpy as np

import core
import solvelib as sv

RULE = ("a disturbed solve is non-trivial when at least two workers took turns; distinct by problem and the observed order in which the "
        "workers executed the lines of the library")
REQUIRED = {"same-as-one-worker": 300, "compiled-threads": 8, "obs:solves with workers taking turns": 20}
ENV = {"NUMBA_NUM_THREADS": "4"}
LOG_LEVEL = logging.INFO


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for kind in ["polar", "gap", "mask", "mesh"]:
        for i in range(4 if q else 14):
            c = sv.config(rng, kind, 5 if q else 6)
            if kind == "mesh":
                c["nb"] = rng.randint(8, 12 if q else 24)
            else:
                c["L"] = rng.randint(3, 5) if i else 2
            rows = c["nb"] if kind == "mesh" else c["L"] ** 2 if kind == "mask" else c["L"]
            out.append({"kind": "schedule", "conf": c, "ncpu": [2, 3, 4, rng.randint(5, 9), rows + rng.randint(1, 8), "unset"],
                        "repeat": 2 if q else 10, "sub": rng.randrange(10**9), "w": 3})
    for i in range(3 if q else 12):
        c = sv.config(rng, "box", 6)
        c["L"] = rng.randint(3, 7)
        out.append({"kind": "compiled", "conf": c, "w": 4})
    out.append({"kind": "partition", "sub": rng.randrange(10**9), "n": 60 if q else 400})
    out.append({"kind": "order-of-one", "sub": rng.randrange(10**9)})
    return out


class Turns(logging.Handler):
    """Traces the worker threads, delays them at random lines, and records whose turn it was."""

    def __init__(self, seed, rate):
        super().__init__()
        self.rng = random.Random(seed)
        self.rate, self.seq, self.ids, self.n, self.slept = rate, [], {}, 0, 0
        self.main = threading.get_ident()

    def turn(self):
        t = threading.get_ident()
        if t == self.main:
            return
        i = self.ids.setdefault(t, len(self.ids))
        if not self.seq or self.seq[-1] != i:
            self.seq.append(i)
        self.n += 1
        r = self.rng.random()
        if r < self.rate and self.slept < 400:
            self.slept += 1
            time.sleep(self.rng.choice([0, 0, 2e-5, 2e-4, 1e-3]))

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO_SRC):
            return None
        if event == "line":
            self.turn()
        return self.trace

    def emit(self, record):
        self.rate, old = 0.5, self.rate
        self.turn()
        self.rate = old

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        threading.settrace(self.trace)
        self.logger = logging.getLogger("sleplet")
        self.logger.addHandler(self)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        sys.setswitchinterval(self.old)
        self.logger.removeHandler(self)


def run_case(ctx, case):
    logging.getLogger("sleplet").propagate = False
    if case["kind"] == "partition":
        return partition(ctx, case)
    if case["kind"] == "order-of-one":
        return order_of_one(ctx, case)
    conf = case["conf"]
    if case["kind"] == "compiled":
        return compiled(ctx, conf)
    os.environ["NCPU"] = "1"
    ctx.fresh_data()
    ref = sv.solve(conf)
    rng = random.Random(case["sub"])
    for rep in range(case["repeat"]):
        for n in case["ncpu"]:
            if n == "unset":
                os.environ.pop("NCPU", None)
            else:
                os.environ["NCPU"] = str(n)
            ctx.fresh_data()
            with Turns(rng.random(), rng.choice([0.002, 0.02, 0.1])) as t:
                got = sv.solve(conf)
            sv.compare(ctx, got, ref, conf, "same-as-one-worker", f"{sv.describe(conf)} with NCPU={n}, {len(t.ids)} threads seen, {len(t.seq)} turns")
            ctx.count("obs:turns of workers", len(t.seq))
            ctx.count("obs:delays injected", t.slept)
            if len(t.seq) > 2 and len(t.ids) > 1:
                ctx.count("obs:solves with workers taking turns")
                ctx.nontrivial(f"{sv.key(conf)} {hashlib.md5(bytes(i % 256 for i in t.seq)).hexdigest()[:12]}")
    ctx.sample(f"{sv.describe(conf)}: workers {case['ncpu']}, last run {len(t.seq)} turns of {len(t.ids)} threads")


def compiled(ctx, conf):
    import numba

    numba.set_num_threads(1)
    ctx.fresh_data()
    ref = sv.solve(conf)
    for n in (2, 3, 4, 1):
        numba.set_num_threads(n)
        ctx.fresh_data()
        sv.compare(ctx, sv.solve(conf), ref, conf, "compiled-threads", f"{sv.describe(conf)} with {n} compiled threads")
    ctx.nontrivial(f"{sv.key(conf)} compiled")


def order_of_one(ctx, case):
    """The single-order problem of the polar cap fills its matrix in the same way."""
    import sleplet

    rng = random.Random(case["sub"])
    for _ in range(10):
        L, th, gap = rng.randint(3, 7), rng.uniform(0.2, 1.4), rng.random() < 0.5
        m = rng.randint(1 - L, L - 1)
        os.environ["NCPU"] = "1"
        ref = sleplet.slepian.SlepianPolarCap(L, th, gap=gap, order=m)
        for n in (2, 3, L + 3):
            os.environ["NCPU"] = str(n)
            with Turns(rng.random(), 0.02) as t:
                got = sleplet.slepian.SlepianPolarCap(L, th, gap=gap, order=m)
            for k in ("eigenvalues", "eigenvectors"):
                ctx.same(getattr(got, k), getattr(ref, k), "same-as-one-worker", f"order {m} L={L} {th} with NCPU={n}: {k}")
            if len(t.seq) > 2:
                ctx.count("obs:solves with workers taking turns")
                ctx.nontrivial(f"order {m} {L} {th} {hashlib.md5(bytes(t.seq)).hexdigest()[:12]}")


def partition(ctx, case):
    import sleplet._parallel_methods as pm

    split = getattr(pm, "split_arr_into_chunks", None)
    if split is None:
        raise core.Gone("no split_arr_into_chunks")
    rng = random.Random(case["sub"])
    grid = [(n, k) for n in range(13) for k in range(1, 16)] + [(rng.randint(1, 500), rng.randint(1, 70)) for _ in range(case["n"])]
    for n, k in grid:
        chunks = split(n, k)
        got = sorted(int(x) for c in chunks for x in c)
        ctx.check(got == list(range(n)), "every-row-once", lambda: f"{n} rows, {k} workers: {[list(c) for c in chunks][:4]}")
        ctx.check(len(chunks) <= max(k, 1), "every-row-once", lambda: f"{len(chunks)} chunks for {k} workers")
        if n > 2 * k:
            ctx.check(max(len(c) for c in chunks) <= -(-n // k) + 1, "balanced", lambda: f"{n} rows, {k} workers: sizes {[len(c) for c in chunks]}")
