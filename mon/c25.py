"""C25: the library touches nothing but its data folder."""

import ast
import collections
import hashlib
import importlib
import os
import pathlib
import pkgutil
import random
import re
import shutil
import signal
import subprocess
import sys
import threading

import childlib as ch
import core
import meshlib as ml

RULE = "an operation is non-trivial when it ran to its end under the hooks; distinct by operation and its inputs"
REQUIRED = {"files": 250, "process-wide-state": 250, "network": 250, "programs": 250, "silent-stdout": 250, "threads": 250, "descriptors": 60, "folders": 6, "saved-once": 8,
            "import": 3, "shared-memory": 60, "offline": 10}
KINDS = ["sphere", "mesh", "functions", "plots", "cli"]


def cases(tier, rng):
    k = 1 if tier == "quick" else 10
    out = [{"kind": "import", "sub": rng.randrange(10**9), "w": 3}]
    for i in range(4 * k):
        out.append({"kind": "ops", "of": "sphere", "sub": rng.randrange(10**9), "type": ["polar", "gap", "box", "mask"][i % 4], "w": 6})
    for i in range(2 * k):
        out.append({"kind": "ops", "of": "mesh", "sub": rng.randrange(10**9), "name": ml.SMALL[(i + rng.randrange(9)) % len(ml.SMALL)], "w": 6})
    for of in ("functions", "plots", "cli"):
        for _ in range(k):
            out.append({"kind": "ops", "of": of, "sub": rng.randrange(10**9), "w": 8})
    out.append({"kind": "strace", "of": "sphere", "sub": rng.randrange(10**9), "type": "polar", "w": 6})
    if k > 1:
        out += [{"kind": "strace", "of": of, "sub": rng.randrange(10**9), "type": "mask", "name": ml.SMALL[0], "w": 6} for of in KINDS]
    for _ in range(k):
        out.append({"kind": "clean", "sub": rng.randrange(10**9), "w": 2})
    return out


# ---------------------------------------------------------------- the audit hook (in the child)
MODIFY = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime", "os.truncate", "os.setxattr", "os.removexattr",
          "os.mkfifo", "os.mknod", "shutil.rmtree", "shutil.move", "shutil.chown"}
PROGRAMS = {"subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.startfile", "webbrowser.open", "pty.spawn", "os.kill", "os.killpg",
            "signal.pthread_kill"}
STATE = {"os.chdir", "os.fchdir", "os.putenv", "os.unsetenv"}
NET = {"socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto", "socket.sendmsg", "urllib.Request", "http.client.connect", "ftplib.connect", "smtplib.connect"}
HOSTS = re.compile(r"^(.*\.)?(doi\.org|zenodo\.org|127\.0\.0\.1|localhost|::1)$")


class Audit:
    """What the interpreter reports of the process, in order."""

    def __init__(self):
        self.events, self.on, self.created = [], False, set()
        sys.addaudithook(self.hook)

    def hook(self, name, args):
        if not self.on:
            return
        if name == "open":
            path, mode, flags = (*args, None, None)[:3]
            write = bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if write and not isinstance(path, int):
                self.events.append(("write", text(path)))
        elif name in MODIFY or name in PROGRAMS or name in STATE or name in NET:
            self.events.append((name, *[text(a) for a in args[:4]]))

    def take(self):
        ev, self.events = self.events, []
        return ev


def text(a):
    if isinstance(a, bytes):
        return a.decode(errors="replace")
    if isinstance(a, os.PathLike):
        return os.fspath(a)
    return a if isinstance(a, str | int | float | None | tuple) else repr(a)[:200]


# ---------------------------------------------------------------- process-wide state (in the child)
def settings():
    import decimal
    import locale
    import logging
    import random as rnd
    import warnings

    import numpy as np

    out = {
        "working folder": os.getcwd(), "environment": dict(os.environ), "floating-point error handling": dict(np.geterr()), "print options": repr(sorted(np.get_printoptions().items())),
        "recursion limit": sys.getrecursionlimit(), "warning filters": [repr(f) for f in warnings.filters], "switch interval": sys.getswitchinterval(),
        "signal handlers": [(s.name, repr(signal.getsignal(s))) for s in sorted(signal.valid_signals()) if isinstance(s, signal.Signals)],
        "exception hooks": [id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook)],
        "trace functions": [repr(sys.gettrace()), repr(sys.getprofile())],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "module search path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()),
        "root logger": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.manager.disable, repr(logging.getLoggerClass()), repr(logging.getLogRecordFactory())),
        "random state": hashlib.sha256(repr((rnd.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2:])).encode()).hexdigest(),
        "default file permissions": mask(),
    }
    import faulthandler
    import gc
    import multiprocessing
    import resource
    import socket

    out["network time-out"] = socket.getdefaulttimeout()
    out["stack size of threads"] = threading.stack_size()
    out["longest integers"] = sys.get_int_max_str_digits()
    out["limits"] = [(n, resource.getrlimit(getattr(resource, n))) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")]
    out["priority and processors"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    out["timers"] = [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    out["fault handler"] = faulthandler.is_enabled()
    out["way of starting processes"] = multiprocessing.get_start_method(allow_none=True) or multiprocessing.get_all_start_methods()[0]  # the default is set when it is used
    out["garbage collector"] = (gc.isenabled(), gc.get_threshold())
    if "gmpy2" in sys.modules:
        import gmpy2

        out["multiple-precision context"] = repr(gmpy2.get_context())
    if "numba" in sys.modules:
        import numba

        out["compiled-code threads"] = numba.get_num_threads()
    if "plotly" in sys.modules:
        import plotly.io as pio

        out["plot defaults"] = (repr(pio.templates.default), repr(pio.renderers.default))
    if "pandas" in sys.modules:
        import pandas as pd

        out["pandas options"] = repr([pd.get_option("display.max_rows"), pd.get_option("mode.chained_assignment")])
    return out


def mask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def descriptors():
    out = collections.Counter()
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{x}")
        except OSError:
            continue
        out[re.sub(r"\d{3,}", "#", t)] += 1
    return out


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            out += pathlib.Path(f"/proc/self/task/{t}/children").read_text().split()
        except OSError:
            continue
    names = []
    for pid in out:
        try:
            cmd = pathlib.Path(f"/proc/{pid}/cmdline").read_bytes().replace(b"\0", b" ").decode(errors="replace").strip()
        except OSError:
            continue
        names.append(cmd[:200])
    return sorted(n for n in names if n and "resource_tracker" not in n)


def tree(root):
    """Every file below a folder: kind, permissions, size, time of change, content."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for x in dirs:
            p = pathlib.Path(d, x)
            out[str(p.relative_to(root)) + "/"] = ("folder", p.lstat().st_mode)
        for x in files:
            p = pathlib.Path(d, x)
            if x.endswith(".pyc"):
                continue
            try:
                s = p.lstat()
                out[str(p.relative_to(root))] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino, hashlib.sha256(p.read_bytes()).hexdigest() if p.is_file() else os.readlink(p) if p.is_symlink() else "")
            except OSError:
                continue
    return out


def preload():
    """The packages that the library builds on: what they do is their affair."""
    for p in sorted(pathlib.Path(core.REPO_SRC, "sleplet").rglob("*.py")):
        try:
            nodes = ast.walk(ast.parse(p.read_text()))
        except SyntaxError:
            continue
        for n in nodes:
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and n.module and not n.level else []
            for name in names:
                if name.split(".")[0] == "sleplet":
                    continue
                try:
                    importlib.import_module(name)
                except Exception:  # noqa: BLE001, S112
                    continue
    import multiprocess.resource_tracker as rt
    from multiprocessing import resource_tracker as rt2

    for r in (rt, rt2):
        try:
            r.ensure_running()
        except Exception:  # noqa: BLE001, S112
            continue


def diff(a, b):
    return {k: (str(a.get(k))[:160], str(b.get(k))[:160]) for k in set(a) | set(b) if a.get(k) != b.get(k)}


# ---------------------------------------------------------------- children
class Watch:
    """Runs operations and records what each one did to the outside."""

    def __init__(self, roots, preloaded=True):
        self.roots, self.audit, self.records = roots, Audit(), []
        if preloaded:
            preload()
        self.stdout = pathlib.Path(os.environ["TMPDIR"]).parent / f"stdout{os.getpid()}"
        self.shm = set()
        self.watch_shm()
        self.filters = []
        self.watch_filters()

    def watch_shm(self):
        """Names of the shared-memory blocks created."""
        import _posixshmem

        real = _posixshmem.shm_open

        def shm_open(path, flags, mode=511):
            fd = real(path, flags, mode=mode)
            if flags & os.O_CREAT:
                self.shm.add(path)
            return fd

        _posixshmem.shm_open = shm_open
        for name, m in list(sys.modules.items()):
            if name.endswith("shared_memory") and hasattr(m, "_posixshmem"):
                m._posixshmem = _posixshmem

    def watch_filters(self):
        """Who changes the warning filters (packages do so when they are first imported)."""
        import warnings

        for name in ("filterwarnings", "simplefilter", "resetwarnings"):
            def spy(*a, real=getattr(warnings, name), **k):
                if sys._getframe(1).f_code.co_filename.startswith(core.REPO_SRC):
                    self.filters.append(repr(a))
                return real(*a, **k)

            setattr(warnings, name, spy)

    def left_shm(self):
        return sorted(n for n in self.shm if os.path.exists("/dev/shm/" + n.lstrip("/")))

    def run(self, name, fn, again=False):
        before = {k: tree(v) for k, v in self.roots.items()} if not again else None
        s0, t0, c0, d0, sh0 = settings(), set(threading.enumerate()), children(), descriptors(), self.left_shm()
        sys.stdout.flush()
        keep = os.dup(1)
        out = os.open(self.stdout, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(out, 1)
        self.audit.take()
        self.audit.on = True
        error = None
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            if core.infrastructure(e):
                raise
            error = f"{type(e).__name__}: {str(e)[:200]} {core.where(e)}"
        finally:
            self.audit.on = False
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
            os.close(out)
        s1 = settings()
        if not self.filters:
            s1["warning filters"] = s0["warning filters"]
        rec = {"name": name, "error": error, "events": self.audit.take(), "settings": diff(s0, s1), "threads": sorted(repr(t) for t in set(threading.enumerate()) - t0 if t.is_alive()),
               "children": [c for c in children() if c not in c0], "shm": [n for n in self.left_shm() if n not in sh0], "made": len(self.shm),
               "stdout": self.stdout.read_text(errors="replace")[:300], "fds": dict(descriptors() - d0)}
        self.stdout.unlink()
        rec["trees"] = {k: diff(before[k], tree(v)) for k, v in self.roots.items()} if before is not None else {}
        self.records.append(rec)
        return rec


def roots():
    e = os.environ
    return {"home": e["HOME"], "cache": e["XDG_CACHE_HOME"], "config": e["XDG_CONFIG_HOME"], "temporary": e["TMPDIR"], "working": os.getcwd(), "data": e["XDG_DATA_HOME"],
            "package": str(pathlib.Path(core.REPO_SRC, "sleplet"))}


def child_import(sub):
    w = Watch(roots())
    w.run("import sleplet", lambda: importlib.import_module("sleplet"))
    if "sleplet" in sys.modules:
        mods = [m.name for m in pkgutil.walk_packages(sys.modules["sleplet"].__path__, "sleplet.") if not m.name.endswith("__main__")]
        random.Random(sub).shuffle(mods)
        w.run(f"import of {len(mods)} modules", lambda: [importlib.import_module(m) for m in mods])
        w.run("documented names", names)
    return w.records


def names():
    """Everything that the public modules offer can be had."""
    import sleplet

    for m in (sleplet, sleplet.functions, sleplet.meshes, sleplet.slepian, sleplet.plotting, sleplet.harmonic_methods, sleplet.noise, sleplet.slepian_methods, sleplet.wavelet_methods, sleplet.plot_methods):
        for n in getattr(m, "__all__", []):
            getattr(m, n)


def child_ops(case):
    import c22

    sentinels(case["sub"])
    os.environ.pop("NCPU", None)
    if case.get("type") != "mask" and case["sub"] % 2 or case["sub"] % 5 == 0:  # mostly unset, as users have it
        os.environ["NCPU"] = str(1 + case["sub"] % 4)
    w = Watch(roots())
    importlib.import_module("sleplet")
    ops, made = None, []

    def build():
        nonlocal ops
        made.append(build_ops(case))

    # the inputs: these calls solve and save
    w.run("inputs", build)
    if not made:
        return {"records": w.records, "msg": "", "n": 0, "steady": [], "rerun": []}
    msg, ops = made[0]
    random.Random(case["sub"]).shuffle(ops)
    for op in ops:
        w.run(op[0], lambda op=op: c22.run_one(op))
    n = len(w.records)
    # once more: everything is saved, nothing is opened for the first time
    keep = {k: tree(v) for k, v in w.roots.items()}
    for op in ops:
        w.run(op[0], lambda op=op: c22.run_one(op), again=True)
    return {"records": w.records[:n], "again": w.records[n:], "msg": msg, "n": len(ops), "changed": {k: diff(keep[k], tree(v)) for k, v in w.roots.items()}}


def build_ops(case):
    import c22

    return ops_cli(case) if case["of"] == "cli" else c22.build_ops({**case, "kind": case["of"]})


def ops_cli(case):
    """The installed commands, with the figures they show intercepted."""
    import c18
    import earthlib

    rng = random.Random(case["sub"])
    earthlib.write(os.environ["XDG_DATA_HOME"], case["sub"] % 1000, 130)
    runs = [("sphere", ["gaussian", "-L", 6, "-n", 3, "-z"]), ("sphere", ["slepian", "-L", 5, "-e", 1, "-u", "-z"]), ("sphere", ["earth", "-L", 6, "-s", 2, "-z", "-t", "abs"]),
            ("sphere", ["slepian_dirac_delta", "-L", 5, "-m", "translate", "-a", 0.4, "-b", 0.3, "-z"]), ("sphere", ["harmonic_gaussian", "-L", 5, "-m", "rotate", "-a", 0.4, "-r", "-z", "-o"]),
            ("sphere", ["wmap", "-L", 5, "-c", "earth", "-z"]), ("mesh", ["bird", "-e", 3, "-u"]), ("sphere", ["no_such_function"]), ("sphere", ["gaussian", "-t", "odd"])]
    rng.shuffle(runs)

    def go(cmd, argv):
        s, err = c18.run(cmd, argv)
        return [repr(err), *[x.filename for x in s]]

    return "commands", [(f"{cmd} {argv}", lambda cmd=cmd, argv=argv: go(cmd, argv), [], None) for cmd, argv in runs]


def child_clean(sub):
    """Computations that need no saved results have no business with the network."""
    import numpy as np

    w = Watch(roots())
    import sleplet as sl

    rng = random.Random(sub)
    g = np.random.default_rng(sub)
    L = rng.randint(3, 8)
    flm = g.standard_normal(L * L) + 1j * g.standard_normal(L * L)
    F, W, H = sl.functions, sl.wavelet_methods, sl.harmonic_methods
    x = g.standard_normal((4, L * L)) + 0j
    ops = [("Region", lambda: sl.slepian.Region(theta_max=1.0)), ("Gaussian", lambda: F.Gaussian(L)), ("Gaussian with noise", lambda: F.Gaussian(L, noise=3)),
           ("Gaussian of a region", lambda: F.SquashedGaussian(L, region=sl.slepian.Region(theta_max=1.0))), ("Identity", lambda: F.Identity(L)),
           ("rotate", lambda: F.HarmonicGaussian(L).rotate(0.3, 0.4)), ("translate", lambda: F.DiracDelta(L).translate(0.3, 0.4)), ("convolve", lambda: F.DiracDelta(L).convolve(flm, flm)),
           ("kappas", lambda: W.create_kappas(L * L, 2, 0)), ("wavelets", lambda: F.AxisymmetricWavelets(L, B=2, j_min=0)), ("transform", lambda: W.axisymmetric_wavelet_forward(L, flm, x)),
           ("random signal", lambda: H.compute_random_signal(L, np.random.default_rng(1), var_signal=1.0)), ("boost", lambda: H.invert_flm_boosted(flm, L, 2 * L)),
           ("spherical harmonic", lambda: F.SphericalHarmonic(L, ell=1, m=0)), ("snr", lambda: sl.noise.compute_snr(flm, flm, "x")), ("resolution", lambda: sl.plot_methods.calc_plot_resolution(L))]
    for name, fn in ops:
        w.run(name, fn)
    return w.records


def sentinels(sub):
    """Files of somebody else in all the folders, the data folder too (it is shared by many programs)."""
    rng = random.Random(sub)
    for k, root in roots().items():
        if k == "package":
            continue
        d = pathlib.Path(root)
        d.mkdir(parents=True, exist_ok=True)
        for name in ("notes.txt", ".hidden", "other.npy", "x.part", ".slepian_other.npy.1-1.part", "slepian_eigensolutions_D_foreign_L2_N1_eigenvalues.npy", "data.tmp"):
            (d / name).write_bytes(rng.randbytes(40))
        (d / "folder").mkdir(exist_ok=True)
        (d / "folder" / "keep.npy").write_bytes(b"keep")


# ---------------------------------------------------------------- judgement
def inside(path, root):
    p, r = os.path.realpath(str(path)), os.path.realpath(root)
    return p == r or p.startswith(r + os.sep)


def judge(ctx, rec, where, data, msg, offline=False, importing=False):
    name = f"{msg}: {rec['name']}"
    bad, net, programs = [], [], []
    created = set()
    for e in rec["events"]:
        if e[0] == "write":
            if e[1] in ("/dev/null",) or inside(e[1], "/dev/shm"):
                continue
            if inside(e[1], data):
                created.add(e[1])
                continue
            bad.append(e)
        elif e[0] in MODIFY:
            if e[0] == "os.truncate" and isinstance(e[1], int):  # a shared-memory block
                continue
            if e[0] == "os.mkdir" and os.path.realpath(str(e[1])) in (os.path.realpath(data), os.path.realpath(os.path.dirname(data))):
                continue
            if e[0] == "os.mkdir" and inside(data, str(e[1])):  # its parents
                continue
            if e[0] == "os.rename" and inside(e[2], data) and e[1] in created:
                created.add(e[2])
                continue
            if e[0] in ("os.remove", "os.chmod", "os.utime", "os.truncate", "os.chown") and e[1] in created:
                continue
            if e[0] == "os.mkdir" and inside(e[1], data):
                created.add(e[1])
                continue
            if e[0] in ("os.rmdir", "shutil.rmtree") and e[1] in created:
                continue
            if e[0] == "os.link" and e[1] in created and inside(e[2], data):
                created.add(e[2])
                continue
            bad.append(e)
        elif e[0] in PROGRAMS:
            programs.append(e)
        elif e[0] in NET:
            host = e[1] if e[0] != "socket.connect" and e[0] != "socket.sendto" else (e[2][0] if isinstance(e[2], tuple) else e[2])
            host = "" if host is None else str(host)
            if e[0] in ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto"):
                if offline or importing or not HOSTS.match(host):
                    net.append(e)
            elif offline or importing:
                net.append(e)
    ctx.check(not bad, "files", lambda: f"{name} touched {bad[:4]} outside of its data folder")
    ctx.check(not net, "offline" if offline else "network", lambda: f"{name} contacted {net[:4]}")
    if offline:
        ctx.count("network")
    ctx.check(not programs and not rec["children"], "programs", lambda: f"{name} started {programs[:3] + rec['children'][:3]}")
    ctx.check(not rec["settings"], "process-wide-state", lambda: f"{name} changed {rec['settings']}")
    ctx.check(not rec["stdout"], "silent-stdout", lambda: f"{name} printed {rec['stdout']!r}")
    ctx.check(not rec["threads"], "threads", lambda: f"{name} left {rec['threads']}")
    ctx.check(not rec["shm"], "shared-memory", lambda: f"{name} left {rec['shm']}")
    for k, d in rec["trees"].items():
        rest = dict(d)
        if k == "data":
            rest = {f: v for f, v in d.items() if not (v[0] == "None" and f.endswith((".npy", "/"))) and not (rec["name"] == "inputs" and f.endswith(".mat"))}
        ctx.check(not rest, "folders", lambda: f"{name} changed in the {k} folder {list(rest.items())[:3]}")  # noqa: B023
    ctx.count("obs:operations watched")
    ctx.count("obs:file events", len(rec["events"]))


def run_case(ctx, case):
    msg = f"{case['kind']} {case.get('of', '')}"
    work = ctx.scratch / f"work{case['sub']}"
    for sub in ("home", "cache", "config", "tmp", "cwd", "data/deep"):
        (work / sub).mkdir(parents=True)
    env = {"HOME": str(work / "home"), "XDG_CACHE_HOME": str(work / "cache"), "XDG_CONFIG_HOME": str(work / "config"), "TMPDIR": str(work / "tmp"), "NUMBA_NUM_THREADS": "2"}
    data = work / "data/deep"
    if case["kind"] == "strace":
        return strace(ctx, case, env, data)
    fn, args = {"import": ("child_import", {"sub": case["sub"]}), "ops": ("child_ops", {"case": case}), "clean": ("child_clean", {"sub": case["sub"]})}[case["kind"]]
    rc, res, tail = run_child(ctx, fn, args, env, data, work)
    if res is None or "error" in res:
        if res is not None and res.get("mismatch"):
            raise core.Gone(res["error"])
        if res is None or res.get("infra"):
            raise core.Skip(f"the process ended with {rc}: {tail[-300:]}")
        ctx.violate("no-unexpected-exception", f"{msg}: {res['error']} {tail[-300:]}")
        return
    res = res["ok"]
    if case["kind"] == "import":
        for rec in res:
            ctx.check(rec["error"] is None, "import", f"{rec['name']}: {rec['error']}")
            # its own logger is configured on import
            judge(ctx, rec, "import", str(data), "import", importing=True)
            ctx.check(not any(e[0] == "write" and e[1] != "/dev/null" for e in rec["events"]), "files", lambda: f"{rec['name']} wrote {rec['events'][:3]}")  # noqa: B023
        return
    if case["kind"] == "clean":
        for rec in res:
            if rec["error"]:
                ctx.violate("no-unexpected-exception", f"{rec['name']}: {rec['error']}")
            judge(ctx, rec, "clean", str(data), msg, offline=True)
            ctx.nontrivial(f"offline {rec['name']} {case['sub']}")
        return
    msg = f"{msg} {res['msg']}"
    made = 0
    for rec in res["records"]:
        if rec["error"]:
            ctx.count("obs:operations that failed")
        judge(ctx, rec, "ops", str(data), msg)
        made = max(made, rec["made"])
        if not rec["error"]:
            ctx.nontrivial(f"{msg} {rec['name']}")
    ctx.count("obs:shared-memory blocks made and released", made)
    for rec in res["again"]:
        judge(ctx, rec, "ops", str(data), msg + " (again)")
        ctx.check(not rec["fds"], "descriptors", lambda: f"{msg}: {rec['name']} leaves open {rec['fds']}")  # noqa: B023
    ctx.check(not any(res["changed"].values()), "saved-once", lambda: f"{msg}: computing the same again changed files: { {k: list(v.items())[:3] for k, v in res['changed'].items() if v} }")
    for rec in res["again"]:
        writes = [e for e in rec["events"] if e[0] == "write" and inside(e[1], str(data))]
        ctx.check(not writes, "saved-once", lambda: f"{msg}: {rec['name']} saves again what is saved: {writes[:2]}")  # noqa: B023
    files = tree(data)
    ctx.check(not [f for f in files if f.startswith(".") and f not in (".hidden", ".slepian_other.npy.1-1.part")], "folders", lambda: f"{msg}: left in the data folder: {list(files)}")
    ctx.sample(f"{msg}: {res['n']} operations twice, {len(files)} files in the data folder")


def command(fn, args, out):
    import json

    return [sys.executable, "-P", str(core.HERE / "childlib.py"), "c25", fn, json.dumps(args), str(out)]


def run_child(ctx, fn, args, env, data, work, wrap=()):
    out = ctx.scratch / f"c25-{args.get('sub', args.get('case', {}).get('sub'))}.pkl"
    e = {**os.environ, **env, "XDG_DATA_HOME": str(data)}
    log = (ctx.scratch / "c25.log").open("wb")
    p = subprocess.Popen([*wrap, *command(fn, args, out)], stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e, cwd=str(work / "cwd"))
    log.close()
    return ch.finish((p, out, ctx.scratch / "c25.log"), 400)


# ---------------------------------------------------------------- below the interpreter
CALLS = "open,openat,openat2,creat,mkdir,mkdirat,unlink,unlinkat,rmdir,rename,renameat,renameat2,link,linkat,symlink,symlinkat,chmod,fchmodat,chown,lchown,fchownat,truncate,utimensat,utime,mknod,mknodat,connect,execve,execveat,kill,tkill,setxattr,chdir,fchdir,umask"
LINE = re.compile(r"^(\d+)\s+(\w+)\((.*)\)\s+=\s+(-?\d+)")


def strace(ctx, case, env, data):
    """The same operations with every system call recorded: also what compiled code does is seen."""
    if not shutil.which("strace"):
        raise core.Skip("no strace")
    probe = subprocess.run(["strace", "-qq", "-e", "trace=execve", "/bin/true"], capture_output=True, timeout=60, check=False)
    if probe.returncode:
        raise core.Skip(f"strace: {probe.stderr[-100:]}")
    work = data.parent.parent
    log = ctx.scratch / "strace.log"
    rc, res, tail = run_child(ctx, "child_plain", {"case": case}, env, data, work, wrap=["strace", "-f", "-qq", "-s", "4096", "-e", f"trace={CALLS}", "-o", str(log)])
    if res is None or "error" in res:
        raise core.Skip(f"under strace: {rc} {res and res['error']} {tail[-200:]}")
    seen = collections.Counter()
    bad = []
    cwd = str(work / "cwd")
    phase, own = "start", set()
    allowed = [str(data), "/dev/null", "/dev/shm", "/proc/self"]
    for line in log.read_text(errors="replace").splitlines():
        m = LINE.match(line)
        if not m:
            continue
        _, call, args, ret = m.groups()
        paths = [os.path.join(cwd, p) for p in re.findall(r'"((?:[^"\\]|\\.)*)"', args)]
        if "verif-phase-" in args:
            phase = re.search(r"verif-phase-(\w+)", args).group(1)
            continue
        if phase != "watched" or int(ret) < 0:
            continue
        seen[call] += 1
        if call.startswith("open"):
            if not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC", args):
                continue
            if paths and (paths[0] in allowed[1:] or paths[0].startswith(("/dev/shm/", "/dev/tty", "/proc/self")) or inside(paths[0], str(data))):
                if "O_CREAT" in args:
                    own.add(paths[0])
                continue
            bad.append(line)
        elif call == "connect":
            port = re.search(r'sin6?_port=htons\((\d+)\).*?"([\d.:a-f]+)"', args)
            if port is None or port.group(1) in ("53", "0") or port.group(2) in ("127.0.0.1", "::1"):
                continue
            bad.append(line)
        elif call in ("mkdir", "mkdirat"):
            if not (inside(paths[0], str(data)) or inside(str(data), paths[0])):
                bad.append(line)
        elif call in ("rename", "renameat", "renameat2", "link", "linkat"):
            if not (paths[0] in own and inside(paths[-1], str(data))):
                bad.append(line)
            own.add(paths[-1])
        elif call in ("unlink", "unlinkat"):
            if not (paths[0] in own or paths[0].startswith("/dev/shm/")):
                bad.append(line)
        elif call in ("chmod", "fchmodat", "truncate", "utime", "utimensat"):  # of a file it has made itself
            if not (paths and paths[0] in own):
                bad.append(line)
        elif call == "umask":
            continue
        elif call == "execve":
            if "resource_tracker" not in args:
                bad.append(line)
        else:
            bad.append(line)
    ctx.check(not bad, "system-calls", lambda: f"{case['of']}: {bad[:3]}")
    ctx.count("obs:system calls seen", sum(seen.values()))
    ctx.check(not [x for x in tree(work / "tmp")], "system-calls", lambda: f"left in the temporary folder: {tree(work / 'tmp')}")
    ctx.nontrivial(f"strace {case['of']} {case['sub']}")
    ctx.sample(f"strace: {dict(seen.most_common(6))}")


def child_plain(case):
    """The operations without any hook, between two marks that the trace shows."""
    import c22

    preload()
    importlib.import_module("sleplet")
    os.access("/verif-phase-none", os.F_OK)
    try:
        os.open("/verif-phase-watched", os.O_RDONLY)
    except OSError:
        pass
    msg, ops = build_ops(case)
    for op in ops:
        try:
            c22.run_one(op)
        except Exception as e:  # noqa: BLE001
            if core.infrastructure(e):
                raise
    try:
        os.open("/verif-phase-done", os.O_RDONLY)
    except OSError:
        pass
    return len(ops)
