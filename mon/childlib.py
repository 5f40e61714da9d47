"""Run a function of a monitor module in a process of its own (fresh interpreter, or one that is made to die)."""

import importlib
import json
import os
import pathlib
import pickle
import subprocess
import sys

import core


def start(ctx, module, func, args, data=None, env=None):
    """Start the child; `finish` collects it."""
    ctx.n_child = getattr(ctx, "n_child", 0) + 1
    out = ctx.scratch / f"child{ctx.n_child}.pkl"
    e = dict(os.environ)
    if data is not None:
        e["XDG_DATA_HOME"] = str(data)
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = str(v)
    log = (ctx.scratch / f"child{ctx.n_child}.log").open("wb")
    p = subprocess.Popen([sys.executable, "-P", str(core.HERE / "childlib.py"), module, func, json.dumps(args), str(out)],
                         stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e, cwd=str(ctx.scratch))
    log.close()
    return p, out, pathlib.Path(log.name)


def finish(h, timeout=300):
    """(return code, result or None, tail of the log). A child that has to be killed raises Skip."""
    p, out, log = h
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = "timeout"
    tail = log.read_text(errors="replace")[-1500:]
    res = None
    if out.exists():
        res = pickle.loads(out.read_bytes())  # noqa: S301
    if rc == -9:
        raise MemoryError("child was killed")
    return rc, res, tail


def run(ctx, module, func, args, data=None, env=None, timeout=300):
    return finish(start(ctx, module, func, args, data, env), timeout)


def main():
    import logging
    import warnings

    module, func, args, out = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), pathlib.Path(sys.argv[4])
    warnings.simplefilter("ignore")
    logging.getLogger("sleplet").setLevel(logging.CRITICAL)
    fn = getattr(importlib.import_module(module), func)
    try:
        res = {"ok": fn(**args)}
    except Exception as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        res = {"error": f"{type(e).__name__}: {str(e)[:500]} {core.where(e)}", "type": type(e).__name__,
               "mismatch": core.harness_mismatch(e), "infra": core.infrastructure(e)}
    part = out.with_suffix(".part")
    part.write_bytes(pickle.dumps(res))
    part.replace(out)


if __name__ == "__main__":
    main()
