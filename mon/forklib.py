"""Run code in a forked child of the worker, which may be made to die; collect what it reported."""

import os
import pathlib
import pickle
import time


def shm_prefix(tag):
    """Name the shared memory of this process, so that what it leaves behind can be told apart."""
    pre = f"/v{tag}_"[:10]
    import importlib

    for name in ("multiprocess.shared_memory", "multiprocessing.shared_memory"):
        m = importlib.import_module(name)
        if hasattr(m, "_SHM_NAME_PREFIX"):
            m._SHM_NAME_PREFIX = pre
    return pre[1:]


def shm_of(tag):
    pre = f"v{tag}_"[:9]
    d = pathlib.Path("/dev/shm")
    return [f for f in d.iterdir() if f.name.startswith(pre)] if d.exists() else []


def run(ctx, fn, timeout=120):
    """fn() in a child. Returns (status, result): status is the exit code, or -signal, or 'timeout'."""
    ctx.n_fork = getattr(ctx, "n_fork", 0) + 1
    out = ctx.scratch / f"fork{ctx.n_fork}.pkl"
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            me = os.getpid()
            shm_prefix(me)
            try:
                res = {"ok": fn()}
            except Exception as e:  # noqa: BLE001
                import core

                res = {"error": f"{type(e).__name__}: {str(e)[:300]} {core.where(e)}", "type": type(e).__name__,
                       "mismatch": core.harness_mismatch(e)}
            out.write_bytes(pickle.dumps(res))
            code = 0
        finally:
            os._exit(code)
    t0, status = time.time(), None
    pause = 0.001
    while status is None:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.waitstatus_to_exitcode(st)
        elif time.time() - t0 > timeout:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            status = "timeout"
        else:
            time.sleep(pause)
            pause = min(pause * 1.5, 0.02)
    left = [f.name for f in shm_of(pid)]
    for f in shm_of(pid):
        f.unlink(missing_ok=True)
    res = None
    if out.exists():
        res = pickle.loads(out.read_bytes())  # noqa: S301
        out.unlink()
    return status, res, left
