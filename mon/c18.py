"""C18: the command line draws exactly what the library computes."""

import os
import random
import sys

import numpy as np

import c17
import childlib
import core
import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import plotlib
import regions as rg

RULE = "a run is non-trivial when at least one option differs from its default; distinct by function (or mesh) and options"
REQUIRED = {"values": 60, "positions": 60, "file-name": 60, "every-function": 27, "mesh-values": 16, "every-mesh-method": 8, "names-apart": 10, "refused": 20,
            "annotation": 10, "colour-range": 60, "entry-point": 2, "process": 1}
WORDS = ["abs", "imag", "real", "sum"]
FLM = {  # command name: extra arguments to try
    "africa": [None], "axisymmetric_wavelet_coefficients_africa": [None, [2, 1, 1]], "axisymmetric_wavelet_coefficients_earth": [None, [2, 1, 0], [3, 1, 0]],
    "axisymmetric_wavelet_coefficients_south_america": [None, [2, 1, 1]], "axisymmetric_wavelets": [None, [2, 1, 1], [3, 0, 0]], "dirac_delta": [None], "earth": [None],
    "elongated_gaussian": [None, [0, 1], [-1, 0]], "gaussian": [None, [3], [0]], "harmonic_gaussian": [None, [2, 1], [0, 0]], "identity": [None],
    "noise_earth": [None, [3], [-2]], "ridgelets": [None, [2, 1, 0, 0], [2, 1, 1, 0]], "south_america": [None], "spherical_harmonic": [None, [2, 1], [3, -2]],
    "squashed_gaussian": [None, [0, 1], [-1, 0]], "wmap": [None]}
FP = {
    "slepian": [None, [0], [1]], "slepian_dirac_delta": [None], "slepian_identity": [None], "slepian_wavelets": [None, [2, 0, 0], [2, 1, 0]],
    "slepian_africa": [None], "slepian_noise_africa": [None, [3]], "slepian_wavelet_coefficients_africa": [None, [2, 0, 0]],
    "slepian_south_america": [None], "slepian_noise_south_america": [None, [-1]], "slepian_wavelet_coefficients_south_america": [None, [2, 0, 0]]}
MESH = {
    "basis_functions": [None, [3]], "field": [None], "noise_field": [None, [4]], "slepian_field": [None], "slepian_functions": [None, [1]], "slepian_noise_field": [None, [3]],
    "slepian_wavelet_coefficients": [None, [2, 1, 0], [3, 2, 0]], "slepian_wavelets": [None, [2, 1, 0]]}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    names = sorted(FLM)
    for _ in range(1 if q else 12):
        rng.shuffle(names)
        for i in range(0, len(names), 5):
            out.append({"kind": "flm", "names": names[i:i + 5], "L": rng.randint(5, 7), "n": 5 if q else 8, "sub": rng.randrange(10**9), "w": 5})
        for i, where in enumerate(["polar", "gap", "box", "mask", "default"]):
            out.append({"kind": "fp", "names": sorted(FP), "where": where, "L": rng.randint(4, 6), "n": 2 if q else 4, "sub": rng.randrange(10**9), "w": 7})
    for name in ["cheetah"] if q else ml.NAMES:
        for z in (False, True):
            out.append({"kind": "mesh", "name": name, "zoom": z, "n": 2 if q else 4, "sub": rng.randrange(10**9), "w": 9})
    for _ in range(2 if q else 12):
        out.append({"kind": "apart", "L": rng.randint(5, 7), "sub": rng.randrange(10**9), "w": 3})
    out.append({"kind": "refusals", "sub": rng.randrange(10**9), "w": 1})
    out.append({"kind": "process", "sub": rng.randrange(10**9), "w": 3})
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case.get("sub", 0)))


def command(name):
    """The function that the installed command calls."""
    import importlib
    import importlib.metadata as md

    for e in md.entry_points(group="console_scripts"):
        if e.name == name and e.value.startswith("sleplet"):
            return e.load()
    module = {"sphere": "plotting_on_sphere", "mesh": "plotting_on_mesh"}[name]
    return importlib.import_module(f"sleplet._scripts.{module}").main


def run(cmd, argv):
    """Figures shown by the command, or the exception that ended it."""
    old = sys.argv
    sys.argv = [cmd, *map(str, argv)]
    try:
        with plotlib.capture() as s:
            rc = command(cmd)()
        if rc:
            return s, SystemExit(rc)
        return s, None
    except SystemExit as e:
        return s, e if e.code else None
    except Exception as e:  # noqa: BLE001
        if core.infrastructure(e) or core.harness_mismatch(e):
            raise
        return s, e
    finally:
        sys.argv = old


def options(rng, name, slepian, region=False):
    """Random options as a dictionary, and the argument list."""
    d = {"e": rng.choice((FP if slepian else FLM)[name]), "m": rng.choice(["north", "translate"] + ([] if slepian else ["rotate"])), "t": rng.choice(["real", "real", *WORDS]),
         "u": rng.random() < 0.5, "z": rng.random() < 0.5, "o": rng.random() < 0.3, "p": rng.choice([None, "africa", "south_america"]),
         "n": rng.choice([None, None, -5, 0, 4, 10]), "s": rng.choice([None, None, 1, 2, 5]), "c": rng.choice([None, None, "earth", "south_america", "wmap"]), "r": region}
    d["a"] = rng.choice([-0.25, 2.3, -1.55, 3.6, None, 0, 0.25, 0.5, 1, 1.25, round(rng.uniform(0, 2), 3)])
    d["b"] = rng.choice([None, 0, 0.5, 1, 0.3, round(rng.uniform(0, 1), 3)])
    d["g"] = rng.choice([None, 0, 0.5, 1.5, -0.75, 2.6, round(rng.uniform(0, 2), 3)])
    return d


LONG = {"a": "--alpha", "b": "--beta", "g": "--gamma", "L": "--bandlimit", "c": "--convolve", "e": "--extra_args", "m": "--method", "n": "--noise", "o": "--outline",
        "p": "--perspective", "r": "--region", "s": "--smoothing", "t": "--type", "u": "--unnormalise", "z": "--unzeropad"}


def argv_of(name, L, d, rng):
    out = [name]
    ks = ["L", *d]
    rng.shuffle(ks)
    for k in ks:
        v = L if k == "L" else d[k]
        flag = f"-{k}" if rng.random() < 0.6 else LONG[k]
        if k == "e":
            if v is not None:
                out += [flag, *v]
        elif isinstance(v, bool):
            out += [flag] if v else []
        elif v is not None:
            out += [flag, v]
    return out


def nearest(L, a, b):
    """Nearest grid points (several at a tie) of the angles given as fractions of pi."""
    th, ph = o.grid(L)
    d = np.abs(ph - a * np.pi) % (2 * np.pi)
    d = np.minimum(d, 2 * np.pi - d)
    e = np.abs(th - b * np.pi)
    return [(ph[i], th[j]) for i in np.where(d < d.min() + 1e-9)[0] for j in np.where(e < e.min() + 1e-9)[0]]


def model(name, L, d, region, angle):
    """What the library gives for the parameters: the function and the coefficients that are drawn."""
    import sleplet

    cls = getattr(sleplet.functions, "".join(w.capitalize() for w in name.split("_")))
    f = cls(L, extra_args=d["e"], region=region, noise=d["n"], smoothing=d["s"])
    clean = cls(L, extra_args=d["e"], region=region, smoothing=d["s"]).coefficients
    base_name, c = f.name, f.coefficients
    fp = name.startswith("slepian")
    N = f.slepian.N if fp else None
    real = f.reality
    if d["m"] == "rotate":
        c = f.rotate(angle[0], angle[1], gamma=(d["g"] or 0) * np.pi)
    elif d["m"] == "translate":
        c = f.translate(angle[0], angle[1], shannon=N)
        real = f.reality
    if d["c"]:
        g = getattr(sleplet.functions, "".join(w.capitalize() for w in d["c"].split("_")))(L)
        gc = sleplet.slepian_methods.slepian_forward(L, f.slepian, flm=g.coefficients) if fp else g.coefficients
        c = f.convolve(gc, c, shannon=N)
        real = False
    if not fp and ("earth" in name.split("_") or d["c"] == "earth"):
        turn = {"africa": "rotate_earth_to_africa", None: "rotate_earth_to_south_america", "south_america": "rotate_earth_to_south_america"}[d["p"]]
        c = getattr(sleplet.harmonic_methods, turn)(c, L)
    if fp:
        ev = f.slepian.eigenvectors
        n = min(N, len(c))
        c, clean = ev[:n].T @ c[:n], ev[:N].T @ clean[:N]
    return f, base_name, c, clean, real


def parts(name, d, base, g_name):
    """The file name up to the plot type."""
    import sleplet._string_methods as sm

    a, b = (0.75 if d["a"] is None else d["a"]), (0.125 if d["b"] is None else d["b"])
    out = base
    if d["m"] == "rotate":
        out += f"_rotate_{sm.filename_angle(a, b, d['g'] or 0)}"
    elif d["m"] == "translate":
        out += f"_translate_{sm.filename_angle(a, b)}"
    if d["c"]:
        out += f"_convolved_{g_name}"
    if not name.startswith("slepian") and d["p"] == "africa" and ("earth" in name.split("_") or d["c"] == "earth"):
        out += "_africa"
    return out


def judge(ctx, name, L, d, argv, region, monitor="values"):
    """Run the command and compare with the model."""
    import sleplet

    what = "sphere " + " ".join(map(str, argv))
    if os.environ.get("SLEPIAN_MASK") or os.environ.get("THETA_MAX"):
        what += f" ({ {k: v for k, v in os.environ.items() if k in ENVS} })"
    s, err = run("sphere", argv)
    if isinstance(err, IndexError) and name.startswith("slepian_wavelet") and d["e"]:
        try:
            model(name, L, d, region, nearest(L, 0, 0)[0])
        except IndexError:
            return None  # (a scale beyond the Shannon number)
    if not ctx.check(err is None, monitor, lambda: f"{what}: {type(err).__name__}: {str(err)[:300]} {core.where(err)}"):
        return None
    if not ctx.check(len(s) == 1, monitor, f"{what}: {len(s)} figures"):
        return None
    s = s[0]
    a, b = (0.75 if d["a"] is None else d["a"]), (0.125 if d["b"] is None else d["b"])
    angles = nearest(L, a, b) if d["m"] != "north" else [None]
    worst = None
    for angle in angles:
        sub = core.Ctx(ctx.prop, ctx.case, ctx.scratch, ctx.seed, ctx.tier)
        f, base, c, clean, real = model(name, L, d, region, angle)
        g_name = getattr(sleplet.functions, "".join(w.capitalize() for w in d["c"].split("_")))(L).name if d["c"] else None
        amp = None
        if d["n"] is not None:
            amp = float(np.abs(field_of(f, clean, L, L)).max())
        fp = name.startswith("slepian")
        seen = (lambda R: seen_of(f.region, R)) if fp else None  # noqa: B023
        expect = lambda R: keep_real(field_of(f, c, L, R), real)  # noqa: B023, E731
        v = s.arr("surfacecolor")
        g = expect(v.shape[0] - 1)
        noise_only = np.abs(c17.TYPES[d["t"]](g)).max() < 1e-6 * np.abs(g).max()
        if not noise_only:
            c17.judge_sphere(sub, s, L, expect, what, plot_type=d["t"], normalise=not d["u"], upsample=not d["z"], amplitude=amp, name=parts(name, d, base, g_name), seen=seen,
                             tol=1e-8, monitor=monitor)
        ann = s.fig.layout.scene.annotations
        want = d["m"] == "translate" and not d["o"]
        sub.check(len(ann) == want, "annotation", f"{what}: {len(ann)} annotations")
        if want and len(ann) == 1:
            x = np.array([np.sin(angle[1]) * np.cos(angle[0]), np.sin(angle[1]) * np.sin(angle[0]), np.cos(angle[1])])
            sub.close(np.array([ann[0].x, ann[0].y, ann[0].z], float), x, 1e-9, "annotation", f"{what}: place of the annotation")
        if fp:
            lost = v.astype(float)[:, :-1][~seen_of(f.region, v.shape[0] - 1, outer=True)]
            sub.check((~(lost > -1e29)).all(), "unseen", f"{what}: pixels outside of the region are seen")
        if worst is None or len(sub.violations) < len(worst.violations):
            worst = sub
        if not sub.violations:
            break
    for k, n in worst.counts.items():
        ctx.count(k, n)
    ctx.violations += worst.violations[:3]
    ctx.nontrivial(f"{what}")
    return s


ENVS = ["POLAR_GAP", "SLEPIAN_MASK", "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN"]


def keep_real(g, real):
    return g.real + 0j if real else g


def field_of(f, c, L, R):
    return o.spin_synthesise(c, L, f.spin, R) if f.spin else o.synthesise(c, L, R)


def seen_of(region, R, outer=False):
    """Samples inside of a region, without (or with) those on its bounds."""
    import sleplet

    if region.mask_name and (region.theta_max, region.theta_min, region.phi_min, region.phi_max) == (np.pi, 0, 0, 2 * np.pi):
        return np.load(os.path.join(os.environ["XDG_DATA_HOME"], f"slepian_masks_{region.mask_name}_L{R}.npy")) != 0
    box = (region.theta_min, region.phi_min, region.phi_max) != (0, 0, 2 * np.pi)
    e = 1e-9 if outer else -1e-9
    r = {"theta_min": region.theta_min - e, "theta_max": region.theta_max + e, "phi_min": region.phi_min - e, "phi_max": region.phi_max + e,
         "type": "box" if box else "gap" if region.gap else "polar"}
    assert sleplet
    return o.mask_of(r, R)


def set_region(ctx, rng, where, L):
    """Describe a region in the environment; the region it stands for."""
    import sleplet

    for k in ENVS:
        os.environ.pop(k, None)
    R = sleplet.slepian.Region
    if where == "polar":
        t = rng.choice([30, 45, 60, 90, 130])
        os.environ["THETA_MAX"] = str(t)
        return R(theta_max=float(np.deg2rad(t)), mask_name="south_america")
    if where == "gap":
        t = rng.choice([20, 35, 50])
        os.environ.update(THETA_MAX=str(t), POLAR_GAP=rng.choice(["True", "true"]))
        return R(theta_max=float(np.deg2rad(t)), gap=True, mask_name="south_america")
    if where == "box":
        a, b = rng.choice([(20, 100), (0, 80), (60, 180)])
        c, e = rng.choice([(0, 200), (30, 160), (90, 360)])
        os.environ.update(THETA_MIN=str(a), THETA_MAX=str(b), PHI_MIN=str(c), PHI_MAX=str(e))
        return R(theta_min=float(np.deg2rad(a)), theta_max=float(np.deg2rad(b)), phi_min=float(np.deg2rad(c)), phi_max=float(np.deg2rad(e)), mask_name="south_america")
    if where == "mask":
        m = rg.mask_regions(rng, 1)[0]
        m["shape"] = rng.choice(["blob", "cap", "stripe"])
        for res in (L, 2 * L, sleplet.plot_methods.calc_plot_resolution(L)):
            rg.write_mask({**m, "R": res})
        os.environ["SLEPIAN_MASK"] = m["name"]
        return R(mask_name=m["name"])
    name = rng.choice(["africa", "south_america"])
    if name == "africa" or rng.random() < 0.5:
        os.environ["SLEPIAN_MASK"] = name
    return R(mask_name=name)


def do_flm(ctx, case, rng):
    earthlib.populate(ctx, case["sub"], 130)
    L = case["L"]
    for name in case["names"]:
        ok = False
        for i in range(case["n"]):
            where = rng.choice(["polar", "gap", "box", "mask"]) if i % 2 else "none"
            reg = set_region(ctx, rng, where, L) if where != "none" else None
            if reg is None:
                for k in ENVS:
                    os.environ.pop(k, None)
            d = options(rng, name, False, region=reg is not None)
            if i == 0:
                d.update(e=FLM[name][0], n=None, c=None, m="north")
            if name == "ridgelets" and d["e"] is None:
                d["e"] = [2, 1, 0, 0]
            if name == "ridgelets":
                d.update(z=True, p=None)
            if name == "ridgelets" and d["c"] == "earth":
                d["c"] = "wmap"
            ok = judge(ctx, name, L, d, argv_of(name, L, d, rng), reg) is not None
        ctx.check(ok, "every-function", f"{name} is not drawn")


def do_fp(ctx, case, rng):
    earthlib.populate(ctx, case["sub"], 130)
    L = case["L"]
    reg = set_region(ctx, rng, case["where"], L)
    for name in case["names"]:
        own = name.endswith(("africa", "america"))
        if own != (case["where"] == "default"):
            continue
        if own:
            os.environ["SLEPIAN_MASK"] = "africa" if name.endswith("africa") else "south_america"
            reg = set_named(os.environ["SLEPIAN_MASK"])
            if fc.fn("SlepianAfrica" if name.endswith("africa") else "SlepianSouthAmerica")(L, region=reg).slepian.N == 0:
                ctx.count("every-function")
                continue  # these data have no such continent
        ok = False
        for _ in range(case["n"]):
            d = options(rng, name, True, region=rng.random() < 0.5)
            if name == "slepian_dirac_delta" and d["e"]:
                d["e"] = None
            ok = judge(ctx, name, L, d, argv_of(name, L, d, rng), reg) is not None or ok
        ctx.check(ok or name.startswith("slepian_wavelet"), "every-function", f"{name} is not drawn")


def set_named(name):
    import sleplet

    return sleplet.slepian.Region(mask_name=name)


# ---------------------------------------------------------------- meshes
def do_mesh(ctx, case, rng):
    import sleplet

    mesh = ml.mesh(case["name"], zoom=case["zoom"])
    v, fa = np.asarray(mesh.vertices), np.asarray(mesh.faces)
    inside = np.asarray(mesh.mesh_region).astype(bool)[fa].all(axis=1)
    for method in sorted(MESH):
        names = {}
        ok = False
        for i in range(case["n"] + 1):
            e, n, r, u = rng.choice(MESH[method]), rng.choice([None, 5, -3, 0]), rng.random() < 0.4, rng.random() < 0.5
            if i == 0:
                e, n, r, u = None, None, False, False
            argv = [case["name"], *(["-m", method] if method != "basis_functions" or i else [])]
            argv += ["-e", *e] if e else []
            argv += ["-n", n] if n is not None else []
            argv += ["-r"] * r + ["-u"] * u + ["-z"] * case["zoom"]
            what = "mesh " + " ".join(map(str, argv))
            s, err = run("mesh", argv)
            if not ctx.check(err is None and len(s) == 1, "mesh-values", lambda: f"{what}: {type(err).__name__}: {str(err)[:300]} {core.where(err) if err else ''}"):
                continue
            s = s[0]
            cls = getattr(sleplet.meshes, "Mesh" + "".join(w.capitalize() for w in method.split("_")))
            f = cls(mesh, extra_args=e, noise=n, region=r)
            slep = method.startswith("slepian")

            def synth(f, c):
                if not slep:
                    return mesh.basis_functions.T @ c
                N = f.mesh_slepian.N
                return mesh.basis_functions.T @ (f.mesh_slepian.slepian_functions[:N].T @ c[:N])

            field = synth(f, f.coefficients)
            face = field[fa].mean(axis=1)
            val = s.arr("intensity").astype(float)
            want = face if u else c17.unit(face)
            sel = inside if slep else np.ones(len(fa), bool)
            if want is not None:
                scale = np.abs(want).max() * (1 if u else np.abs(face).max() / np.ptp(face))
                ctx.close(val[sel], want[sel], 1e-8 * scale, "mesh-values", what)
            if slep:
                ctx.check((val[~inside] < min(s.trace.cmin, 0 if want is None else want.min())).all(), "mesh-values", f"{what}: faces outside are seen")
            t = s.trace.cmax
            if u:
                size = np.abs(field).max()
                if n is not None:
                    size = np.abs(synth(f, cls(mesh, extra_args=e, region=r).coefficients)).max()
                    ctx.check(abs(t - size) <= 1e-9 * size, "colour-range", f"{what}: colours to {t}, clean amplitude {size}")
                ctx.check(s.trace.cmin == -t and abs(t - size) <= 1e-9 * size, "colour-range", f"{what}: colours {s.trace.cmin} to {t}")
            else:
                ctx.check((s.trace.cmin, t) == (0, 1), "colour-range", f"{what}: colours {s.trace.cmin} to {t}")
            ctx.close(np.stack([s.arr("x"), s.arr("z"), s.arr("y")], 1).astype(float), v, 0, "positions", f"{what}: vertices")
            ctx.check(s.filename == f.name + ("" if u else "_norm"), "file-name", f"{what}: {s.filename!r}")
            key = (f.name, u)
            ctx.check(names.setdefault(s.filename, key) == key, "names-apart", f"{what} has the name of other options, {s.filename!r}")
            eye = s.fig.layout.scene.camera.eye
            cam = mesh._camera_view.eye
            ctx.check((eye.x, eye.y, eye.z) == (cam.x, cam.y, cam.z), "positions", f"{what}: camera at {eye}")
            ctx.nontrivial(what)
            ok = True
        ctx.check(ok, "every-mesh-method", f"{method} of {case['name']} is not drawn")


# ---------------------------------------------------------------- names
def do_apart(ctx, case, rng):
    """Change one option at a time: the figure or the name changes, never the figure alone."""
    earthlib.populate(ctx, case["sub"], 130)
    L = case["L"]
    base = {"e": None, "m": "north", "t": "real", "u": False, "z": True, "o": False, "p": None, "n": None, "s": None, "c": None, "r": False, "a": None, "b": None, "g": None}
    name = rng.choice(["earth", "gaussian", "harmonic_gaussian", "squashed_gaussian", "noise_earth", "wmap", "africa"])
    base["m"] = rng.choice(["north", "rotate", "translate"])
    base["c"] = rng.choice([None, "earth"])
    changes = [{}, {"t": "abs"}, {"t": "sum"}, {"u": True}, {"z": False}, {"p": "africa"}, {"p": "south_america"}, {"n": 5}, {"n": -5}, {"n": 6}, {"s": 2}, {"s": 3}, {"c": "wmap"},
               {"c": "earth"}, {"c": "south_america"}, {"c": None}, {"m": "rotate"}, {"m": "translate"}, {"m": "north"}, {"a": 0.5}, {"a": 1.5}, {"b": 0.5}, {"b": 0.875}, {"g": 0.5}, {"g": 1},
               {"L": L + 1}, {"THETA_MAX": 60}, {"THETA_MAX": 61}, {"THETA_MAX": 60, "POLAR_GAP": "true"}, {"THETA_MAX": 60, "PHI_MIN": 30}]
    if len(FLM[name]) > 1:
        changes += [{"e": e} for e in FLM[name][1:]]
    seen = {}
    for ch in changes:
        d = {**base, **{k: v for k, v in ch.items() if k in base}}
        for k in ENVS:
            os.environ.pop(k, None)
        for k, v in ch.items():
            if k in ENVS:
                os.environ[k] = str(v)
                d["r"] = True
        argv = argv_of(name, ch.get("L", L), d, rng)
        s, err = run("sphere", argv)
        if not ctx.check(err is None and len(s) == 1, "names-apart", lambda: f"sphere {argv}: {err!r}"):  # noqa: B023
            continue
        v = s[0].arr("surfacecolor").astype(float)
        other = seen.setdefault(s[0].filename, (v, argv))
        ctx.check(other[0].shape == v.shape and np.allclose(other[0], v, atol=1e-9 * np.abs(v).max()), "names-apart",
                  f"'sphere {' '.join(map(str, argv))}' and 'sphere {' '.join(map(str, other[1]))}' draw different figures of one name {s[0].filename!r}")
    ctx.check(len(seen) >= 12, "names-apart", f"only {len(seen)} names for {len(changes)} settings")


def do_refusals(ctx, case, rng):
    earthlib.populate(ctx, case["sub"])
    os.environ["THETA_MAX"] = "50"
    good = ["gaussian", "-L", 4]
    bad = [["foo"], ["Gaussian"], ["gauss"], [], ["gaussian", "-L", "x"], ["gaussian", "-L"], ["gaussian", "-t", "phase"], ["gaussian", "-m", "south"], ["gaussian", "-c", "gaussian"],
           ["gaussian", "-c", "foo"], ["gaussian", "-p", "asia"], ["gaussian", "-e", "1", "2"], ["gaussian", "-e", "a"], ["gaussian", "--nothing"], ["gaussian", "extra"], ["gaussian", "-n", "a"],
           ["spherical_harmonic", "-L", 4, "-e", 1, 2], ["spherical_harmonic", "-L", 4, "-e", 7, 0], ["slepian", "-L", 4, "-m", "rotate"], ["slepian", "-L", 4, "-e", -1], ["slepian", "-L", 4, "-e", 99],
           ["earth", "-L", 4, "-e", 3], ["axisymmetric_wavelets", "-L", 4, "-e", 3, 2, 9], ["gaussian", "-s", "x"], ["gaussian", "-a", "x"], ["mesh_field"], ["slepian_functions"]]
    for b in bad:
        s, err = run("sphere", b)
        ctx.check(err is not None and not s, "refused", f"'sphere {' '.join(map(str, b))}' is accepted")
    for b in [["cow"], [], ["Bird"], ["bird", "-m", "foo"], ["bird", "-m", "mesh_field"], ["bird", "-e", "x"], ["bird", "-n", "x"], ["bird", "-q"], ["bird", "cube"]]:
        s, err = run("mesh", b)
        ctx.check(err is not None and not s, "refused", f"'mesh {' '.join(b)}' is accepted")
    s, err = run("sphere", good)
    ctx.check(err is None and len(s) == 1, "values", f"{good}: {err!r}")
    import sleplet

    every = [n for n in sleplet.functions.__all__ if n not in ("Coefficients", "Flm", "Fp")]
    known = {"".join(w.capitalize() for w in n.split("_")) for n in (*FLM, *FP)}
    ctx.check(set(every) >= known, "every-function", f"missing: {known - set(every)}")
    import importlib.metadata as md

    for n, m in (("sphere", "plotting_on_sphere"), ("mesh", "plotting_on_mesh")):
        es = [e for e in md.entry_points(group="console_scripts") if e.name == n]
        import tomllib

        f = core.pathlib.Path(core.REPO_SRC).parent / "pyproject.toml"
        text = tomllib.loads(f.read_text())["project"]["scripts"].get(n) if f.exists() else es and es[0].value
        ctx.check(text == f"sleplet._scripts.{m}:main", "entry-point", f"command {n}: {text}")


def child_command(cmd, argv):
    s, err = run(cmd, argv)
    return [s[0].filename, s[0].arr("surfacecolor").astype(float)] if s else repr(err)


def do_process(ctx, case, rng):
    """The same command in another process draws the same figure."""
    import shutil

    earthlib.populate(ctx, case["sub"], 130)
    here = core.pathlib.Path(os.environ["XDG_DATA_HOME"])
    env = {"THETA_MAX": "55", "NCPU": "2"}
    runs = [["slepian_dirac_delta", "-L", 5, "-n", 4, "-z", "-m", "translate"], ["slepian", "-L", 5, "-e", 2, "-u"], ["squashed_gaussian", "-L", 5, "-r", "-n", 3, "-z", "-c", "wmap"]]
    hs = []
    for i, a in enumerate(runs):
        other = ctx.scratch / f"copy{i}"
        shutil.copytree(here, other)
        hs.append(childlib.start(ctx, "c18", "child_command", {"cmd": "sphere", "argv": a}, data=other, env=env))
    os.environ.update(env)
    for a, h in zip(runs, hs):
        mine = child_command("sphere", a)
        rc, res, tail = childlib.finish(h)
        if not res or "ok" not in res:
            ctx.check(rc == "timeout" or not res, "process", f"{a}: {res}")
            continue
        got = res["ok"]
        ctx.check(isinstance(got, list) and got[0] == mine[0] and np.array_equal(got[1], mine[1]), "process", lambda: f"{a}: {got if isinstance(got, str) else got[0]} and {mine[0]}")  # noqa: B023
