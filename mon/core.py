"""Core of the monitors: case context, three-valued verdicts, violations, classification of exceptions.

A check is a module `cNN` with
  RULE      one sentence: what makes an evaluation non-trivial
  REQUIRED  {monitor name: minimal number of evaluations} needed for a verdict "held"
  cases(tier, rng) -> list of JSON-able dicts, each with a "kind"
  run_case(ctx, case)
Each case runs in a worker process with its own data, cache and configuration folders.
"""

from __future__ import annotations

import os
import pathlib
import shutil
import sys
import tempfile
import traceback
import types

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
HERE = pathlib.Path(__file__).resolve().parent


class Skip(Exception):
    """The monitor cannot look at this tree (for instance a private name is gone)."""


class Gone(Skip):
    """A private name that this tree does not have."""


class Ctx:
    def __init__(self, prop: str, case: dict, scratch: pathlib.Path, seed: int, tier: str):
        self.prop, self.case, self.seed, self.tier = prop, case, seed, tier
        self.scratch = scratch
        self.counts: dict[str, int] = {}
        self.keys: set[str] = set()
        self.violations: list[dict] = []
        self.skips: list[str] = []
        self.samples: list[str] = []
        self.n_dir = 0

    # ------------------------------------------------------------------ folders
    def fresh_data(self) -> pathlib.Path:
        """A new empty data folder, which the library uses from now on."""
        self.n_dir += 1
        d = self.scratch / f"data{self.n_dir}"
        d.mkdir()
        self.use_data(d)
        return d

    @staticmethod
    def use_data(d) -> None:
        os.environ["XDG_DATA_HOME"] = str(d)

    # ------------------------------------------------------------------ monitors
    def count(self, monitor: str, n: int = 1) -> None:
        self.counts[monitor] = self.counts.get(monitor, 0) + n

    def nontrivial(self, key) -> None:
        self.keys.add(str(key))

    def sample(self, text: str) -> None:
        if len(self.samples) < 3:
            self.samples.append(str(text)[:300])

    def violate(self, monitor: str, msg: str, known: str | None = None) -> None:
        if len(self.violations) < 40:
            self.violations.append({"monitor": monitor, "msg": str(msg)[:1500], "known": known, "case": self.case})

    def check(self, ok, monitor: str, msg="", known: str | None = None) -> bool:
        self.count(monitor)
        ok = bool(ok)
        if not ok:
            self.violate(monitor, msg() if callable(msg) else msg, known)
        return ok

    def close(self, a, b, tol, monitor: str, msg="", known: str | None = None) -> bool:
        """Arrays equal in shape and to tol (absolute)."""
        import numpy as np

        self.count(monitor)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.violate(monitor, f"{msg}: shapes {a.shape} and {b.shape}", known)
            return False
        if a.size == 0:
            return True
        err = np.abs(a - b)
        worst = err.max()
        if not (np.isfinite(worst) and worst <= tol):
            i = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            self.violate(monitor, f"{msg}: differ by {worst} (tolerance {tol}) at {tuple(map(int, i))}: {a[i]} and {b[i]}", known)
            return False
        return True

    def same(self, a, b, monitor: str, msg="", known: str | None = None) -> bool:
        """Arrays bit-identical (NaN equal to NaN)."""
        import numpy as np

        self.count(monitor)
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
        if not ok:
            # -0.0 and 0.0 are the same value
            ok = a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        if not ok:
            det = f"shapes {a.shape}/{b.shape} dtypes {a.dtype}/{b.dtype}"
            if a.shape == b.shape and a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
                det += f" max difference {np.abs(a.astype(complex) - b.astype(complex)).max() if a.size else 0}"
            self.violate(monitor, f"{msg}: not identical ({det})", known)
        return ok

    def raises(self, fn, monitor: str, msg="", types=(Exception,), known: str | None = None) -> bool:
        """fn() must raise one of the given types."""
        self.count(monitor)
        try:
            r = fn()
        except types:
            return True
        except Exception as e:  # noqa: BLE001
            self.violate(monitor, f"{msg}: raised {type(e).__name__}: {e} instead of {types}", known)
            return False
        self.violate(monitor, f"{msg}: accepted, gave {str(type(r))}", known)
        return False

    def accepts(self, fn, monitor: str, msg="", known: str | None = None):
        """fn() must not raise; returns its result or None."""
        self.count(monitor)
        try:
            return fn()
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            if infrastructure(e):
                raise
            if harness_mismatch(e):
                raise
            self.violate(monitor, f"{msg}: raised {type(e).__name__}: {str(e)[:400]} {where(e)}", known)
            return None

    def result(self) -> dict:
        return {"counts": self.counts, "keys": sorted(self.keys), "violations": self.violations,
                "skips": self.skips, "samples": self.samples}


# ---------------------------------------------------------------- classification of exceptions
def _frames(e: BaseException):
    return traceback.extract_tb(e.__traceback__)


def where(e: BaseException) -> str:
    own = [f for f in _frames(e) if f.filename.startswith(REPO_SRC)]
    f = own[-1] if own else (_frames(e)[-1] if _frames(e) else None)
    return f"(at {f.filename}:{f.lineno} in {f.name})" if f else ""


def infrastructure(e: BaseException) -> bool:
    """Errors of the machine, not of the code."""
    if isinstance(e, MemoryError):
        return True
    return isinstance(e, OSError) and e.errno in (12, 23, 24, 28, 11)  # memory, files, disk, again


def harness_mismatch(e: BaseException) -> bool:
    """The harness touched a name or signature that this tree does not have."""
    own = [f for f in _frames(e) if f.filename.startswith(REPO_SRC) or f.filename.startswith(str(HERE))]
    deepest = own[-1].filename if own else ""
    if deepest.startswith(REPO_SRC):
        return False
    if isinstance(e, AttributeError):
        obj = getattr(e, "obj", None)
        kind = obj if isinstance(obj, type) else type(obj)
        own_obj = isinstance(obj, types.ModuleType) or kind.__module__.startswith("sleplet")
        return own_obj and (str(e.name).startswith("_") or "._" in getattr(obj, "__name__", ""))
    if isinstance(e, ImportError):
        return "._" in str(e.name) or "_" in str(e)
    signature = isinstance(e, TypeError) and any(
        t in str(e) for t in ("unexpected keyword argument", "required positional argument",
                              "required keyword-only argument", "positional argument"))
    called = str(e).split("(")[0].split(".")  # names of private functions are free to change
    return signature and any(x.startswith("_") and not x.startswith("__") for x in called)


def run_guarded(mod, ctx: Ctx) -> None:
    """Run one case; turn exceptions into verdicts."""
    try:
        if ctx.case.get("kind") == "tree":
            import treelib

            treelib.run(ctx, mod.__name__)
        else:
            mod.run_case(ctx, ctx.case)
    except Gone as e:
        ctx.skips.append(f"mismatch: {e}")
    except Skip as e:
        ctx.skips.append(f"skip: {e}")
    except Exception as e:  # noqa: BLE001
        text = f"{type(e).__name__}: {str(e)[:600]} {where(e)}"
        if infrastructure(e):
            ctx.skips.append(f"infrastructure: {text}")
        elif harness_mismatch(e):
            ctx.skips.append(f"mismatch: {text}")
        else:
            tb = "".join(traceback.format_exception(e)[-6:])
            if os.environ.get("VERIF_DEBUG"):
                print(tb, file=sys.stderr)
            ctx.violate("no-unexpected-exception", f"valid use raised {text}")
    ctx.count("cases")


def make_scratch() -> pathlib.Path:
    return pathlib.Path(tempfile.mkdtemp(prefix="verif-sleplet-"))


def drop_scratch(p: pathlib.Path) -> None:
    if p.name.startswith("verif-sleplet-") or "verif-sleplet-" in str(p):
        shutil.rmtree(p, ignore_errors=True)


def base_env(scratch: pathlib.Path) -> dict[str, str]:
    """Environment of every process that runs the code under test."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("XDG_", "NUMBA_", "OMP_", "OPENBLAS_", "MKL_"))}
    for k in ("NCPU", "POLAR_GAP", "SLEPIAN_MASK", "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN"):
        env.pop(k, None)
    for sub in ("data", "cache", "config", "tmp", "home"):
        (scratch / sub).mkdir(exist_ok=True)
    env.update({
        "HOME": str(scratch / "home"), "XDG_DATA_HOME": str(scratch / "data"), "XDG_CACHE_HOME": str(scratch / "cache"),
        "XDG_CONFIG_HOME": str(scratch / "config"), "TMPDIR": str(scratch / "tmp"),
        "http_proxy": "http://127.0.0.1:9", "https_proxy": "http://127.0.0.1:9", "no_proxy": "",
        "HTTP_PROXY": "http://127.0.0.1:9", "HTTPS_PROXY": "http://127.0.0.1:9",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "2",
        "MPLBACKEND": "Agg", "PYTHONPATH": f"{REPO_SRC}:{HERE}", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONWARNINGS": "default",
    })
    return env
