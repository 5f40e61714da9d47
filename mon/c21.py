"""C21: data lookup prefers the archive, then local files, then recomputation.

The archive is replaced below the HTTP library: what pooch and requests do is real.
"""

import hashlib
import io
import json
import os
import pathlib
import random
import urllib.parse

import numpy as np

import core
import earthlib
import forklib
import funcs as fc
import oracle as o
import solvelib as sv

RULE = "a scenario is non-trivial when a looked-up name is listed by the archive or present locally; distinct by what is listed, what is local, and the faults"
REQUIRED = {"lookup": 200, "lazy": 5, "queried-once": 40, "fetch-count": 40, "solution": 60, "saved": 60, "unreachable": 30, "fetch-failure": 12, "recovery": 8,
            "source-of-data": 8, "threads": 60}
RECORD = "7767698"


def cases(tier, rng):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(12 * k):
        out.append({"kind": "lookup", "sub": rng.randrange(10**9), "down": i % 3 == 0})
    for i in range(5 * k):
        out.append({"kind": "solution", "type": ["polar", "gap", "box", "mask", "mesh"][i % 5], "sub": rng.randrange(10**9), "n": 12, "w": 2})
    for i in range(5 * k):
        out.append({"kind": "faults", "type": ["polar", "gap", "box", "mask", "mesh"][i % 5], "sub": rng.randrange(10**9), "w": 2})
    for i in range(2 * k):
        out.append({"kind": "threads", "sub": rng.randrange(10**9), "n": 5, "w": 2})
    for _ in range(2 * k):
        out.append({"kind": "data", "sub": rng.randrange(10**9), "w": 2})
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case["sub"]))


# ---------------------------------------------------------------- the archive
class Archive:
    """Answers of doi.org and zenodo.org, given at the transport of the HTTP library."""

    def __init__(self, files, style="legacy", down=None):
        self.files, self.style, self.down = files, style, down
        self.fault = {}  # name -> how its download fails
        self.log = []

    def install(self):
        import requests.adapters
        import pooch.core

        me = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return me.answer(adapter, request)

        requests.adapters.HTTPAdapter.send = send

        class NoSleep:
            def __getattr__(self, name):
                import time

                return (lambda s: None) if name == "sleep" else getattr(time, name)

        pooch.core.time = NoSleep()
        return self

    def reply(self, adapter, request, body=b"", status=200, headers=None):
        import requests
        import urllib3

        r = requests.Response()
        r.status_code, r.url, r.request, r.connection = status, request.url, request, adapter
        r.headers = requests.structures.CaseInsensitiveDict({"Content-Length": str(len(body)), **(headers or {})})
        r.raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers=dict(r.headers), status=status, preload_content=False)
        r.reason = "status"
        return r

    def answer(self, adapter, request):
        import requests

        u = urllib.parse.unquote(request.url.split("?")[0])
        host, _, path = u.split("://")[1].partition("/")
        if host == "doi.org":
            self.log.append("doi")
            if self.down == "refused":
                raise requests.exceptions.ConnectionError("refused")
            if self.down == "timeout":
                raise requests.exceptions.ConnectTimeout("timeout")
            if self.down in ("404", "503"):
                return self.reply(adapter, request, b"no", int(self.down))
            if self.down == "portal":
                return self.reply(adapter, request, b"", 302, {"Location": "https://portal.invalid/login"})
            return self.reply(adapter, request, b"", 302, {"Location": f"https://zenodo.org/records/{path.rsplit('.', 1)[-1]}"})
        if path == f"api/records/{RECORD}":
            self.log.append("registry")
            if self.down == "read-timeout":
                raise requests.exceptions.ReadTimeout("timeout")
            if self.down == "busy":
                return self.reply(adapter, request, json.dumps({"status": 429, "message": "Too many requests"}).encode(), 429)
            if self.down == "html":
                return self.reply(adapter, request, b"<html>maintenance</html>")
            fs = []
            for n, b in self.files.items():
                h = hashlib.md5(b).hexdigest()
                if self.style == "legacy":
                    fs.append({"key": n, "size": len(b), "checksum": f"md5:{h}", "links": {"self": f"https://zenodo.org/api/records/{RECORD}/files/{n}/content"}})
                else:
                    fs.append({"filename": n, "filesize": len(b), "checksum": h})
            return self.reply(adapter, request, json.dumps({"id": int(RECORD), "files": fs}).encode())
        if path == f"records/{RECORD}" or host == "portal.invalid":
            return self.reply(adapter, request, b"<html></html>")
        for pre, post in ((f"api/records/{RECORD}/files/", "/content"), (f"records/{RECORD}/files/", "")):
            if path.startswith(pre) and path.endswith(post):
                n = path[len(pre):len(path) - len(post)]
                if n in self.files:
                    self.log.append(f"get {n}")
                    return self.download(adapter, request, n)
        self.log.append(f"other {u}")
        return self.reply(adapter, request, b"not found", 404)

    def download(self, adapter, request, n):
        import requests

        f, b = self.fault.get(n), self.files[n]
        if isinstance(f, list):  # the faults of the first attempts
            f = f.pop(0) if f else None
        if f == "reset":
            raise requests.exceptions.ConnectionError("reset")
        if f == "500":
            return self.reply(adapter, request, b"error", 500)
        if f == "404":
            return self.reply(adapter, request, b"gone", 404)
        if f == "corrupt":
            b = b[:-1] + bytes([b[-1] ^ 1])
        if f == "short":
            b = b[: len(b) // 2]
        return self.reply(adapter, request, b)


def queries(log):
    """How often the list of files was asked for: pooch resolves the archive again for every download."""
    return max(log.count("doi"), log.count("registry")) - sum(x.startswith("get ") for x in log)


DOWN = ["refused", "timeout", "404", "503", "portal", "read-timeout", "busy", "html"]


def forked(ctx, fn):
    """fn() in a process that has not looked anything up yet; its result or Skip."""
    status, res, _ = forklib.run(ctx, fn)
    if status != 0 or res is None:
        raise core.Skip(f"scenario process ended with {status}")
    if "error" in res:
        if res["mismatch"]:
            raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
        ctx.violate("no-unexpected-exception", f"valid use raised {res['error']}")
        return None
    return res["ok"]


def fresh_cache(ctx):
    ctx.n_cache = getattr(ctx, "n_cache", 0) + 1
    d = ctx.scratch / f"cache{ctx.n_cache}"
    d.mkdir()
    os.environ["XDG_CACHE_HOME"] = str(d)


def attempt(fn):
    """('ok', value) or ('raised', type, text)."""
    try:
        return "ok", fn()
    except Exception as e:  # noqa: BLE001
        if core.harness_mismatch(e):
            raise
        return "raised", type(e).__name__, f"{str(e)[:200]} {core.where(e)}"


# ---------------------------------------------------------------- lookups by name
NAMES = ["EGM2008_Topography_flms_L2190.mat", "wmap_lcdm_pl_model_wmap7baoh0.mat", "slepian_masks_africa_L16.npy", "slepian_masks_africa_L128.npy",
         "slepian_eigensolutions_D_polar40_L16_N31_eigenvalues.npy", "slepian_eigensolutions_D_polar40_L16_N31_eigenvectors.npy",
         "slepian_eigensolutions_D_polar40_L16_N31_orders.npy", "a.npy", "b.npy", "A.npy", "a.np", "slepian", "a b.npy"]


def do_lookup(ctx, case, rng):
    data = pathlib.Path(os.environ["XDG_DATA_HOME"])
    fresh_cache(ctx)
    listed = {n: f"archive {n}".encode() for n in NAMES if rng.random() < 0.4}
    for n in NAMES:
        if rng.random() < 0.5:
            (data / n).write_bytes(f"local {n}".encode())
    if rng.random() < 0.3:
        data.joinpath("a.npy").unlink(missing_ok=True)
    style = rng.choice(["legacy", "new"])
    down = rng.choice(DOWN) if case["down"] else None
    steps = []
    for i in range(60):
        k = rng.random()
        steps.append(("find" if k < 0.75 else "save" if k < 0.9 else "delete", rng.choice(NAMES), i))

    def run():
        a = Archive(listed, style, down).install()
        import sleplet
        from sleplet._data import setup_pooch as sp

        sleplet.slepian.Region(theta_max=1.0)
        out = {"early": list(a.log), "steps": []}
        for what, n, i in steps:
            if what == "find":
                p = sp.find_on_pooch_then_local(n)
                out["steps"].append(None if p is None else pathlib.Path(p).read_bytes())
            elif what == "save":
                sp.save_locally(n, np.array([i]))
                out["steps"].append((data / n).read_bytes() if (data / n).exists() else None)
            else:
                (data / n).unlink(missing_ok=True)
                out["steps"].append(None)
        out["log"] = a.log
        return out

    local = {f.name: f.read_bytes() for f in data.iterdir()}
    r = forked(ctx, run)
    if r is None:
        return
    ctx.check(not r["early"], "lazy", f"importing the library queried the archive: {r['early']}")
    up = listed if down is None else {}
    for (what, n, i), got in zip(steps, r["steps"], strict=True):
        if what == "delete":
            local.pop(n, None)
        elif what == "save":
            b = io.BytesIO()
            np.save(b, np.array([i]))
            local[n] = b.getvalue()
            ctx.check(got == local[n], "saved", f"save of {n}: file holds {got and got[:40]}")
        else:
            want = up.get(n, local.get(n))
            ctx.check(got == want, "unreachable" if down else "lookup",
                      lambda: f"{n} (listed {n in listed}, local {n in local}, archive {down or 'up'}): got {got and got[:40]} instead of {want and want[:40]}")
    ctx.check(queries(r["log"]) == 1, "queried-once", f"{queries(r['log'])} queries of the archive ({down or 'up'}): {r['log'][:8]}")
    asked = {n for w, n, _ in steps if w == "find"}
    gets = [x[4:] for x in r["log"] if x.startswith("get ")]
    ctx.check(len(gets) == len(set(gets)) and set(gets) <= asked & set(up), "fetch-count", f"downloads {gets}")
    ctx.check(not [x for x in r["log"] if x.startswith("other")], "fetch-count", f"requests {r['log']}")
    ctx.count("obs:HTTP requests answered", len(r["log"]))
    if asked & (set(listed) | set(local)):
        ctx.nontrivial(f"lookup {sorted(listed)} {down} {case['sub']}")
    ctx.sample(f"{len(steps)} steps with {len(listed)} listed names, archive {down or 'up'}, requests {r['log'][:4]}")


def do_threads(ctx, case, rng):
    """First lookups of several threads, while the archive takes its time."""
    import threading
    import time

    for i in range(case["n"]):
        data = ctx.fresh_data()
        fresh_cache(ctx)
        listed = {n: f"archive {n}".encode() for n in NAMES if rng.random() < 0.6}
        local = {n: f"local {n}".encode() for n in NAMES if rng.random() < 0.6}
        for n, b in local.items():
            (data / n).write_bytes(b)
        down = rng.choice(DOWN) if i % 4 == 3 else None
        plans = [(rng.sample(NAMES, 3), rng.choice([0, 0, 0.002, 0.01, 0.03])) for _ in range(rng.randint(2, 6))]
        waits = [rng.choice([0, 0.003, 0.02]) for _ in range(40)]

        def run():
            a = Archive(listed, rng.choice(["legacy", "new"]), down).install()
            answer = a.answer

            def slow(adapter, request):
                time.sleep(waits.pop() if waits else 0)
                return answer(adapter, request)

            a.answer = slow
            from sleplet._data import setup_pooch as sp

            gate, out = threading.Barrier(len(plans)), [[] for _ in plans]

            def one(k):
                names, late = plans[k]
                gate.wait(30)
                time.sleep(late)
                for n in names:
                    out[k].append(attempt(lambda: (lambda p: None if p is None else pathlib.Path(p).read_bytes())(sp.find_on_pooch_then_local(n))))  # noqa: B023

            ts = [threading.Thread(target=one, args=(k,)) for k in range(len(plans))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            asked = queries(a.log)
            late = sp.find_on_pooch_then_local(NAMES[0])
            return out, a.log, queries(a.log) - asked, None if late is None else pathlib.Path(late).read_bytes()

        r = forked(ctx, run)
        if r is None:
            continue
        out, log, more, late = r
        up = listed if down is None else {}
        for (names, _), got in zip(plans, out, strict=True):
            for n, g in zip(names, got, strict=True):
                want = up.get(n, local.get(n))
                ctx.check(g == ("ok", want), "threads", lambda: f"{len(plans)} threads at once: {n} (listed {n in listed}, local {n in local}, archive {down or 'up'}): got {g} instead of {want}")  # noqa: B023
        ctx.check(late == up.get(NAMES[0], local.get(NAMES[0])) and more == 0, "threads", f"lookup after the threads: {late}, the archive was asked {more} more times")
        ctx.check(queries(log) <= len(plans), "queried-once", f"{len(plans)} threads: {log}")
        ctx.nontrivial(f"threads {len(plans)} {queries(log)} {down} {case['sub']} {i}")


# ---------------------------------------------------------------- solutions
def group(names):
    """Files of the solution itself."""
    return sorted(n for n in names if n.startswith("slepian_eigensolutions")) or sorted(n for n in names if "masks" not in n)


def field_of(name):
    return {"eigenvalues": "eigenvalues", "eigenvectors": "eigenvectors", "orders": "orders"}[name.rsplit("_", 1)[-1].removesuffix(".npy")]


def marked(b, by):
    """The same file with recognisable other content."""
    x = np.load(io.BytesIO(b))
    out = io.BytesIO()
    np.save(out, {"archive": np.full_like(x, 1), "local": np.full_like(x, -1)}[by] if x.dtype.kind == "i" else x * {"archive": 0.5, "local": 0.25}[by])
    return out.getvalue()


def prepare(ctx, case, rng):
    """A problem, its solution and the files it saves when no archive is there."""
    conf = sv.config(rng, case["type"], 5)
    d = ctx.fresh_data()
    inputs = {}

    def solve():
        Archive({}, down="refused").install()
        return sv.solve(conf)

    ref = forked(ctx, solve)
    if ref is None:
        raise core.Skip("no reference")
    files = {f.name: f.read_bytes() for f in d.iterdir() if f.suffix == ".npy"}
    own = group(files)
    if case["type"] == "mesh":
        own = sorted(n for n in files if "slepian" in n and "mask" not in n) or own
    for n in files:
        if n.startswith("slepian_masks"):
            inputs[n] = files[n]
    if not own:
        raise core.Skip("no saved files")
    return conf, ref, files, own, inputs


def setup_local(ctx, conf, local, inputs):
    d = ctx.fresh_data()
    for n, b in {**inputs, **local}.items():
        (d / n).write_bytes(b)
    if not inputs and not local:
        # a folder that is not there yet, in one that is not either
        d = d / "not" / "yet"
        os.environ["XDG_DATA_HOME"] = str(d)
    fresh_cache(ctx)
    return d


def expected(ref, own, found):
    """The result when every file is found."""
    out = dict(ref)
    for n in own:
        out[field_of(n)] = np.load(io.BytesIO(found[n]))
    return out


def judge_solution(ctx, got, want, own, msg, monitor):
    for n in own:
        k = field_of(n)
        a, b = got[k], want[k]
        if k == "eigenvectors" and len(a) != len(b):  # the subject of C03
            a, b = a[:min(len(a), len(b))], b[:min(len(a), len(b))]
        ctx.same(a, b, monitor, f"{msg}: {k}")
    ctx.check(got["N"] == want["N"], monitor, f"{msg}: N={got['N']}")


def do_solution(ctx, case, rng):
    conf, ref, files, own, inputs = prepare(ctx, case, rng)
    for i in range(case["n"]):
        where = {n: rng.choice(["none", "archive", "local", "both"]) for n in own}
        if i == 0:
            where = dict.fromkeys(own, "both")
        elif i == 1:
            where = dict.fromkeys(own, "archive")
        elif i == 2:
            where = dict.fromkeys(own, "local")
        elif i == case["n"] - 1:
            where = dict.fromkeys(own, "none")
        elif i < 3 + len(own):
            where = {n: "none" if n == own[i - 3] else rng.choice(["archive", "local", "both"]) for n in own}
        listed = {n: marked(files[n], "archive") for n in own if where[n] in ("archive", "both")}
        local = {n: marked(files[n], "local") for n in own if where[n] in ("local", "both")}
        d = setup_local(ctx, conf, local, inputs)

        def run():
            a = Archive(listed, rng.choice(["legacy", "new"])).install()
            first = sv.solve(conf)
            again = sv.solve(conf)
            return first, again, a.log

        r = forked(ctx, run)
        if r is None:
            continue
        got, again, log = r
        msg = f"{sv.describe(conf)} with files {[(n.rsplit('_', 1)[-1], w) for n, w in where.items()]}"
        complete = all(w != "none" for w in where.values())
        now = {n: (d / n).read_bytes() for n in own if (d / n).exists()}
        if complete:
            want = expected(ref, own, {**local, **listed})
            judge_solution(ctx, got, want, own, msg, "solution")
            ctx.check(now == local, "saved", f"{msg}: nothing is computed, but local files changed")
            judge_solution(ctx, again, want, own, f"{msg} (again)", "solution")
        else:
            judge_solution(ctx, got, ref, own, f"{msg} (computed)", "solution")
            ctx.check(all(now.get(n) == files[n] for n in own), "saved", f"{msg}: computed but not all saved: {sorted(n for n in own if now.get(n) != files[n])}")
            want = expected(ref, own, {**files, **listed})
            judge_solution(ctx, again, want, own, f"{msg} (again, after saving)", "solution")
        ctx.check(queries(log) == 1, "queried-once", f"{msg}: {log}")
        gets = [x[4:] for x in log if x.startswith("get ")]
        ctx.check(len(gets) == len(set(gets)), "fetch-count", f"{msg}: downloads {gets}")
        if set(where.values()) != {"none"}:
            ctx.nontrivial(f"{sv.describe(conf)} {sorted(where.items())}")
    ctx.sample(f"{sv.describe(conf)}: {case['n']} placements of {own}")


def do_faults(ctx, case, rng):
    conf, ref, files, own, inputs = prepare(ctx, case, rng)
    # no archive
    for down in rng.sample(DOWN, 4):
        for local in ({}, {n: marked(files[n], "local") for n in own}):
            d = setup_local(ctx, conf, local, inputs)

            def run():
                a = Archive({n: marked(files[n], "archive") for n in own}, "legacy", down).install()
                return sv.solve(conf), sv.solve(conf), a.log

            r = forked(ctx, run)
            if r is None:
                continue
            got, again, log = r
            want = expected(ref, own, local) if local else ref
            msg = f"{sv.describe(conf)}, archive {down}, {'local files' if local else 'no files'}"
            judge_solution(ctx, got, want, own, msg, "unreachable")
            judge_solution(ctx, again, want, own, f"{msg} (again)", "unreachable")
            ctx.check(queries(log) == 1, "queried-once", f"{msg}: {log}")
            ctx.nontrivial(f"{msg}")
    # a listed file cannot be had
    for fault in rng.sample(["reset", "500", "404", "corrupt", "short"], 3):
        victim = rng.choice(own)
        local = {n: marked(files[n], "local") for n in own} if rng.random() < 0.5 else {}
        listed = {n: marked(files[n], "archive") for n in own if n == victim or rng.random() < 0.6 or not local}
        d = setup_local(ctx, conf, local, inputs)

        def run():
            a = Archive(listed).install()
            a.fault[victim] = fault
            first = attempt(lambda: sv.solve(conf))
            state = {n: (d / n).read_bytes() for n in own if (d / n).exists()}
            a.fault.clear()
            return first, state, attempt(lambda: sv.solve(conf)), a.log

        r = forked(ctx, run)
        if r is None:
            continue
        first, state, second, log = r
        msg = f"{sv.describe(conf)}: download of {victim.rsplit('_', 1)[-1]} fails ({fault}), {'local files present' if local else 'no local files'}"
        ctx.check(first[0] == "raised", "fetch-failure", f"{msg}: not reported")
        ctx.check(state == local, "fetch-failure", f"{msg}: local files changed")
        if ctx.check(second[0] == "ok", "recovery", f"{msg}: once the archive works again, raised {second[1:]}"):
            judge_solution(ctx, second[1], expected(ref, own, {**local, **listed}), own, f"{msg}, then works", "recovery")
        ctx.nontrivial(msg)


# ---------------------------------------------------------------- data sets and masks
def do_data(ctx, case, rng):
    import sleplet

    size, L = 20, rng.randint(4, 9)
    a_dir, l_dir = ctx.scratch / "arch", ctx.scratch / "loc"
    earth_a, cl_a = earthlib.write(a_dir, case["sub"], size)
    earth_l, cl_l = earthlib.write(l_dir, case["sub"] + 1, size)
    shape = (L + 1, 2 * L)
    g = np.random.default_rng(case["sub"])
    masks = {"archive": g.random(shape) < 0.5, "local": g.random(shape) < 0.5}
    mname = f"slepian_masks_{rng.choice(['africa', 'south_america', 'mine'])}_L{L}.npy"
    for i in range(5):
        place = {n: rng.choice(["archive", "local", "both"]) for n in (earthlib.TOPO, earthlib.CL, mname)}
        listed, local = {}, {}
        for n, w in place.items():
            for side, dst, src in (("archive", listed, a_dir), ("local", local, l_dir)):
                if w in (side, "both"):
                    if n == mname:
                        b = io.BytesIO()
                        np.save(b, masks[side])
                        dst[n] = b.getvalue()
                    else:
                        dst[n] = (src / n).read_bytes()
        setup_local(ctx, None, local, {})
        key = mname.removeprefix("slepian_masks_").removesuffix(f"_L{L}.npy")

        def run():
            import sleplet._mask_methods as mm

            a = Archive(listed).install()
            m = mm.create_mask_region(L, sleplet.slepian.Region(mask_name=key))
            return fc.fn("Earth")(L).coefficients, fc.fn("Wmap")(L).coefficients, np.asarray(m), a.log

        r = forked(ctx, run)
        if r is None:
            continue
        earth, wmap, m, log = r
        side = {n: "local" if w == "local" else "archive" for n, w in place.items()}
        want = earthlib.full_earth(earth_a if side[earthlib.TOPO] == "archive" else earth_l, L)
        ctx.close(earth, want, 1e-12 * np.abs(want).max(), "source-of-data", f"Earth, {place}")
        cl = cl_a if side[earthlib.CL] == "archive" else cl_l
        other = cl_l if side[earthlib.CL] == "archive" else cl_a
        ell, emm = o.elm(L)
        p = [(np.abs(wmap[ell == 3]) ** 2).sum() / c[1] for c in (cl, other)]
        # the draw is the same for all spectra: the ratio of two degrees gives the spectrum away
        q = np.array([np.abs(wmap[l * l + l + 1]) for l in range(2, L)])
        z = np.random.default_rng(30)
        draw = []
        for l in range(2, L):
            z.standard_normal()
            c = None
            for mm_ in range(1, l + 1):
                x = z.standard_normal() + 1j * z.standard_normal()
                c = c if c is not None else x
            draw.append(abs(c) / np.sqrt(2) * np.sqrt(2 * np.pi / (l * (l + 1)) * cl[l - 2]))
        ctx.close(q, np.array(draw), 1e-10 * max(draw), "source-of-data", f"Wmap, {place} {p}")
        ctx.same(m.astype(bool), masks[side[mname]], "source-of-data", f"mask {mname}, {place}")
        ctx.check(queries(log) == 1, "queried-once", f"{place}: {log}")
        ctx.nontrivial(f"data {sorted(place.items())}")
