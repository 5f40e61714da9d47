"""C16: names identify results: deterministic and free of collisions."""

import fractions
import itertools
import random
import re

import numpy as np

import childlib
import earthlib
import funcs as fc
import meshlib as ml
import regions as rg

RULE = ("a name is non-trivial when it contains a fraction, a negative number or stands next to a name of close parameters (difference below 1e-3); distinct names "
        "are counted")
REQUIRED = {"args-decode": 300, "angle-decode": 200, "degree": 200, "region-distinct": 30, "region-decode": 60, "function-distinct": 15, "function-repeat": 60,
            "class-names": 40, "wavelet-ending": 50, "plot-name": 40, "location-distinct": 10, "process": 3, "multiples": 10}
PI = float(np.pi)


def cases(tier, rng):
    k = 1 if tier == "quick" else 25
    out = []
    for _ in range(3 * k):
        for kind in ("strings", "regions"):
            out.append({"kind": kind, "sub": rng.randrange(10**9)})
    for _ in range(2 * k):
        for kind in ("functions", "plots"):
            out.append({"kind": kind, "L": rng.randint(4, 5), "sub": rng.randrange(10**9), "w": 4})
    for _ in range(k):
        out.append({"kind": "meshes", "name": rng.choice(ml.NAMES), "sub": rng.randrange(10**9), "w": 3})
        out.append({"kind": "locations", "sub": rng.randrange(10**9), "w": 3})
        out.append({"kind": "process", "sub": rng.randrange(10**9), "w": 6})
    out.append({"kind": "classes"})
    return out


def run_case(ctx, case):
    globals()[f"do_{case['kind']}"](ctx, case, random.Random(case.get("sub", 0)))


def distinct(ctx, monitor, named, what):
    """named: list of (parameters, name): equal names only for equal parameters, equal parameters have equal names."""
    seen = {}
    for par, name in named:
        if name in seen and seen[name] != par:
            ctx.check(False, monitor, f"{what} {seen[name]} and {par} are both called {name!r}")
            return
        seen[name] = par
    ctx.check(len(seen) == len({repr(p) for p, _ in named}), monitor, f"{what}: one parameter set has several names")
    for _, name in named:
        ctx.nontrivial(name)


def rational(rng):
    k = rng.random()
    if k < 0.2:
        return float(rng.randint(-20, 40))
    if k < 0.6:
        return rng.randint(-60, 60) / rng.randint(1, 48)
    if k < 0.8:
        return rng.uniform(-3, 3)
    return 10.0 ** rng.randint(-5, 4)


# ---------------------------------------------------------------- strings
def do_strings(ctx, case, rng):
    from sleplet import _string_methods as sm

    args = ["sig", "jmin", "B", "noise", "snr", "l", "m", "smoothed", "freq"]
    named = []
    values = [rational(rng) for _ in range(50)]
    values += [v + d for v in values[:12] for d in (2e-6, -1e-5, 1e-4)]
    for v in values:
        a = rng.choice(args)
        n = ctx.accepts(lambda: sm.filename_args(v, a), "args-decode", f"filename_args({v!r}, {a!r})")
        if n is None:
            continue
        m = re.fullmatch(rf"_(-?\d+){a}(\d*)", n)
        ctx.check(m, "args-decode", f"filename_args({v!r}, {a!r}) = {n!r}")
        if m:
            back = int(m[1]) / int(m[2] or 1)
            ctx.check(abs(back - v) <= 6e-7, "args-decode", f"{n!r} means {back!r}, not {v!r}")
            ctx.check(m[2] != "1", "args-decode", f"{n!r}: denominator 1 written")
            if m[2]:
                ctx.nontrivial(n)
        named.append((round(v, 6), f"{sm.filename_args(v, 'x')}"))
    close = {}
    for v in values:
        close.setdefault(sm.filename_args(v, "x"), []).append(v)
    for n, vs in close.items():
        ctx.check(max(vs) - min(vs) <= 1.2e-6, "args-decode", f"{sorted(set(vs))} are all called {n!r}")
    for n in (1, 2, 3, 7, 10, 100, 12345, -4, 0):
        ctx.check(sm.filename_args(n, "B") == f"_{n}B", "args-decode", f"filename_args({n}, 'B') = {sm.filename_args(n, 'B')!r}")
    # angles as fractions of pi
    named = []
    for _ in range(80):
        fr = [rng.choice([0, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 1.75, 2, 0.125, 1 / 3, 2 / 3, 0.1, 0.7, rng.random() * 2, rng.randint(0, 40) / rng.randint(1, 40)]) for _ in range(3)]
        if rng.random() < 0.4:
            fr[2] = 0
        if rng.random() < 0.3:
            fr = [-v if rng.random() < 0.5 else v for v in fr]
        n = ctx.accepts(lambda: sm.filename_angle(*fr) if fr[2] else sm.filename_angle(*fr[:2]), "angle-decode", f"filename_angle{tuple(fr)}")
        if n is None:
            continue
        m = re.fullmatch(r"alpha(0|(-?\d+)pi(\d*))_beta(0|(-?\d+)pi(\d*))(?:_gamma(-?\d+)pi(\d*))?", n)
        ctx.check(m, "angle-decode", f"filename_angle{tuple(fr)} = {n!r}")
        if not m:
            continue
        g = m.groups()
        back = [int(g[1] or 0) / int(g[2] or 1), int(g[4] or 0) / int(g[5] or 1), int(g[6] or 0) / int(g[7] or 1)]
        ctx.check(all(abs(b - v) <= 6e-7 for b, v in zip(back, fr)), "angle-decode", f"{n!r} means {back}, not {fr}")
        named.append((tuple(fractions.Fraction(x).limit_denominator() for x in fr), n))
    distinct(ctx, "angle-decode", named, "angles")
    # degrees
    for _ in range(80):
        if rng.random() < 0.5:
            d = rng.randint(0, 360)
            r = sm.angle_as_degree(float(np.deg2rad(d)))
            ctx.check(r == d and str(r) == str(d), "degree", f"{d} degrees are written {r!r}")
        else:
            d = rng.choice([rng.uniform(0, 360), rng.randint(0, 360) + rng.choice([0.5, 0.25, 0.1, 0.01, 1e-4, 1e-6])])
            r = sm.angle_as_degree(float(np.deg2rad(d)))
            ctx.check(abs(r - d) < 1e-9, "degree", f"{d!r} degrees are written {r!r}")
    a = rng.uniform(0, 3)
    ds = [sm.angle_as_degree(a + k * 1e-6) for k in range(20)]
    ctx.check(len({str(d) for d in ds}) == 20, "degree", f"angles 1e-6 apart have the same degrees {ds[:3]}")
    for k in range(1, 9):
        ctx.check(sm.multiples_of_pi(k * PI) == f"{k if k > 1 else ''}π", "multiples", f"{k} pi: {sm.multiples_of_pi(k * PI)!r}")
    # wavelet endings
    named = []
    for j_min, j in itertools.product(range(5), [None, 0, 1, 2, 3, 9, 10, 11]):
        n = sm.wavelet_ending(j_min, j)
        if j is None:
            ctx.check(n == "_scaling", "wavelet-ending", f"({j_min}, None): {n!r}")
        else:
            ctx.check(n == f"_{j + j_min}j", "wavelet-ending", f"({j_min}, {j}): {n!r}")
    # names in camel case
    parts = ["Slepian", "Mesh", "Noise", "Africa", "Wmap", "Field", "A", "Gaussian", "Earth", "B", "Zoom"]
    named = []
    for _ in range(30):
        ws = [rng.choice(parts) for _ in range(rng.randint(1, 5))]
        n = sm._convert_camel_case_to_snake_case("".join(ws))
        ctx.check(n == "_".join(w.lower() for w in ws), "class-names", f"{''.join(ws)} becomes {n}")
        named.append(("".join(ws), n))
    distinct(ctx, "class-names", named, "class names")


# ---------------------------------------------------------------- regions
def do_regions(ctx, case, rng):
    import sleplet

    R = sleplet.slepian.Region
    pars = []
    for _ in range(12):
        pars.append(rg.polar(rng))
        pars.append(rg.box(rng))
    for d in rng.sample(range(1, 90), 3) + rng.sample(range(90, 179), 2):
        for e in (0, 0.5, 0.01, 1e-4):
            for t in ("polar", "gap"):
                pars.append({"type": t, "theta_max": float(np.deg2rad(d + e))})
    for p in [x for x in pars if x["type"] == "box"][:6]:
        for k in ("theta_min", "theta_max", "phi_min", "phi_max"):
            for e in (2e-6, 1e-3, float(np.deg2rad(0.5))):
                q = dict(p)
                q[k] += e
                lim = PI if k.startswith("t") else 2 * PI
                if q[k] <= lim and q["theta_min"] < q["theta_max"] and q["phi_min"] < q["phi_max"]:
                    pars.append(q)
        # limits exchanged between the angles
        pars.append({**p, "phi_min": p["theta_min"], "phi_max": p["theta_max"], "theta_min": min(p["phi_min"], PI - 0.1) / 2 + 0.01, "theta_max": PI - 0.005})
    names = ["africa", "south_america", "polar", "polar40", "island", "Island", "theta10-20_phi0-360", "x1"]
    named = []
    for p in pars:
        a, b = rg.region_of(p), rg.region_of(p)
        n = a._name_ending
        ctx.check(n == b._name_ending, "region-distinct", f"{p}: {n!r} and {b._name_ending!r}")
        key = {k: round(v, 9) if isinstance(v, float) else v for k, v in p.items()}
        named.append((key, n))
        if p["type"] == "box":
            m = re.fullmatch(r"theta([\d.e-]+?)-([\d.e-]+?)_phi([\d.e-]+?)-([\d.e-]+)", n)
            back = cand = None
            if m:
                cand = [decode2(n[5:n.index("_phi")]), decode2(n[n.index("_phi") + 4:])]
                want = [np.rad2deg(p[k]) for k in ("theta_min", "theta_max", "phi_min", "phi_max")]
                back = any(abs(x - want[0]) < 1e-8 and abs(y - want[1]) < 1e-8 for x, y in cand[0]) and any(
                    abs(x - want[2]) < 1e-8 and abs(y - want[3]) < 1e-8 for x, y in cand[1])
            ctx.check(back, "region-decode", f"{p}: {n!r}")
        else:
            pre = "polar_gap" if p["type"] == "gap" else "polar"
            ok = n.startswith(pre) and abs(float(n.removeprefix(pre)) - np.rad2deg(p["theta_max"])) < 1e-8 if re.fullmatch(r"[\d.e-]+", n.removeprefix(pre)) else False
            ctx.check(ok, "region-decode", f"{p}: {n!r}")
    for m in names:
        if m in ("polar40", "theta10-20_phi0-360"):
            continue  # (masks named like a region are the user's own making)
        named.append(({"mask": m}, R(mask_name=m)._name_ending))
    distinct(ctx, "region-distinct", named, "regions")
    # no numbers lost: integer degrees exactly
    for _ in range(12):
        d = rng.randint(1, 179)
        ctx.check(R(theta_max=float(np.deg2rad(d)))._name_ending == f"polar{d}", "region-decode", f"cap of {d} degrees: {R(theta_max=float(np.deg2rad(d)))._name_ending}")
        g = rng.randint(1, 179)
        ctx.check(R(theta_max=float(np.deg2rad(g)), gap=True)._name_ending == f"polar_gap{g}", "region-decode", f"gap of {g} degrees")
        a, b = sorted(rng.sample(range(0, 181), 2))
        c, e = sorted(rng.sample(range(0, 361), 2))
        if (a, c, e) != (0, 0, 360):
            x = R(theta_min=float(np.deg2rad(a)), theta_max=float(np.deg2rad(b)), phi_min=float(np.deg2rad(c)), phi_max=float(np.deg2rad(e)))._name_ending
            ctx.check(x == f"theta{a}-{b}_phi{c}-{e}", "region-decode", f"box {a}-{b} {c}-{e}: {x}")


def decode2(text):
    """All ways to read two numbers out of 'a-b'."""
    out = []
    for i, ch in enumerate(text):
        if ch == "-":
            try:
                out.append((float(text[:i]), float(text[i + 1:])))
            except ValueError:
                pass
    return out


# ---------------------------------------------------------------- functions
def grid_of(rng, L, names, n):
    """Parameter sets of functions, some next to each other."""
    out = []
    for _ in range(n):
        name = rng.choice(names)
        p = {"fn": name, "args": dict(rng.choice({**fc.FLM, **fc.FP, **fc.EARTH_FLM}[name])), "L": L + rng.choice([0, 0, 1]), "noise": None, "smoothing": None, "region": None}
        if rng.random() < 0.4:
            p["noise"] = rng.choice([5, -5, 0, 10, 2.5, 0.5])
        if rng.random() < 0.3 and name not in fc.FP:
            p["smoothing"] = rng.choice([1, 2, 3, 12])
        if name in fc.FP:
            p["region"] = rng.choice([{"type": "polar", "theta_max": 0.9}, {"type": "gap", "theta_max": 0.9}, {"type": "polar", "theta_max": 0.9001}])
        elif rng.random() < 0.5 and name != "SouthAmerica":
            p["region"] = rng.choice([{"type": "polar", "theta_max": 0.9}, {"type": "gap", "theta_max": 0.9}, {"type": "polar", "theta_max": 0.91},
                                      {"type": "box", "theta_min": 0.1, "theta_max": 1.0, "phi_min": 0.0, "phi_max": 2.0},
                                      {"type": "box", "theta_min": 0.1, "theta_max": 1.01, "phi_min": 0.0, "phi_max": 2.0}])
        for k, v in p["args"].items():
            if isinstance(v, float) and rng.random() < 0.6:
                p["args"][k] = v + rng.choice([0.5, 0.25, 1e-3, 1 / 3, 1])
        out.append(p)
        for ch in rng.sample(["noise", "smoothing", "L", "arg", "region"], 2):  # a neighbour in one parameter
            q = {**p, "args": dict(p["args"])}
            if ch == "noise":
                q["noise"] = rng.choice([7, 0, -5]) if p["noise"] is None else rng.choice([p["noise"] + 1, -p["noise"] or 1])
            elif ch == "smoothing" and name not in fc.FP:
                q["smoothing"] = 4 if p["smoothing"] is None else p["smoothing"] + 1
            elif ch == "L":
                q["L"] += 1
            elif ch == "arg" and q["args"]:
                k = rng.choice(sorted(q["args"]))
                q["args"][k] = q["args"][k] + (1e-3 if isinstance(q["args"][k], float) else 0)
            elif ch == "region" and p["region"] and name not in fc.FP:
                q["region"] = None
            out.append(q)
    return out


def name_of(p):
    kw = {"noise": p["noise"], "smoothing": p["smoothing"]}
    if p["region"]:
        kw["region"] = rg.region_of(p["region"])
    return fc.fn(p["fn"])(p["L"], **p["args"], **kw).name


def full(p):
    """Parameters with the defaults filled in: what the name has to tell."""
    cls = fc.fn(p["fn"])
    import dataclasses

    d = {f.name: f.default for f in dataclasses.fields(cls) if f.name in ("sigma", "l_sigma", "m_sigma", "t_sigma", "p_sigma", "freq", "ell", "m", "B", "j_min", "j", "SNR", "rank")}
    d = {k: getattr(v, "default", v) for k, v in d.items()}
    d.update(p["args"])
    return {"fn": p["fn"], "args": {k: round(v, 7) if isinstance(v, float) else v for k, v in sorted(d.items())}, "L": p["L"], "noise": p["noise"],
            "smoothing": p["smoothing"], "region": p["region"]}


def do_functions(ctx, case, rng):
    earthlib.populate(ctx, case["sub"])
    L = case["L"]
    names = [*fc.FLM, *fc.FP, "Earth", "Wmap", "Africa", "SouthAmerica", "NoiseEarth", "AxisymmetricWaveletCoefficientsEarth"]
    named = []
    for p in grid_of(rng, L, names, 45):
        n = ctx.accepts(lambda: name_of(p), "function-repeat", str(p))
        if n is None:
            continue
        named.append((full(p), n))
        if rng.random() < 0.3:
            ctx.check(name_of(p) == n, "function-repeat", f"{p}: {n!r} and {name_of(p)!r}")
        ctx.check(n.endswith(f"_L{p['L']}"), "function-repeat", f"{p}: {n!r} does not say the band-limit")
        ctx.check(not set(n) & set("./\\ +"), "function-repeat", f"{p}: {n!r} is no file name") if not p["region"] else None
    distinct(ctx, "function-distinct", named, "functions")
    # one parameter at a time
    for name, base in [("Gaussian", {"sigma": 2.0}), ("SquashedGaussian", {"t_sigma": 0.5, "freq": 0.25}), ("HarmonicGaussian", {"l_sigma": 3.0, "m_sigma": 0.75}),
                       ("ElongatedGaussian", {"t_sigma": 0.5, "p_sigma": 0.25}), ("NoiseEarth", {"SNR": 4.0})]:
        named = []
        for k in base:
            for v in [base[k], 10, 1, 0.1, 0.2, 1.5, 15, 1 / 3, 3, base[k] + 1e-5, base[k] * 10, 2.5, 5.5, 11, 1.1]:
                a = {**base, k: float(v)}
                named.append(({q: round(w, 7) for q, w in sorted(a.items())}, fc.fn(name)(L, **a).name))
        distinct(ctx, "function-distinct", named, name)
    for name, axes in [("SphericalHarmonic", {"ell": range(0, 13), "m": range(-3, 4)}), ("AxisymmetricWavelets", {"B": (2, 3, 12), "j_min": (0, 1, 2), "j": (None, 0)}),
                       ("Ridgelets", {"B": (2, 3), "j_min": (0, 1, 2), "j": (None, 0), "spin": (-1, 0, 1, 2)})]:
        named = []
        for vals in itertools.product(*axes.values()):
            a = dict(zip(axes, vals))
            if name == "SphericalHarmonic" and abs(a["m"]) > a["ell"]:
                continue
            named.append((a, fc.fn(name)(13, **a).name))
        distinct(ctx, "function-distinct", named, name)


def do_meshes(ctx, case, rng):
    nb = rng.randint(10, 20)
    named = []
    for mesh in [case["name"], rng.choice([x for x in ml.NAMES if x != case["name"]])]:
        for zoom in (False, True):
            m = ml.mesh(mesh, nb, zoom=zoom)
            for cls, kws in fc.MESH.items():
                for kw in kws:
                    for noise in (None, 5, -2.5, 0):
                        for region in (False, True):
                            if noise in (-2.5, 0) and rng.random() < 0.7:
                                continue
                            try:
                                f = fc.meshfn(cls)(m, noise=noise, region=region, **kw)
                            except IndexError:
                                continue  # (scales beyond the Shannon number)
                            import dataclasses

                            d = {x.name: getattr(f, x.name) for x in dataclasses.fields(f) if x.name in ("SNR", "rank", "B", "j_min", "j")}
                            named.append(({"mesh": mesh, "zoom": zoom, "cls": cls, "noise": noise, "region": region, **d}, f.name))
    distinct(ctx, "function-distinct", named, "mesh functions")


# ---------------------------------------------------------------- plots
def do_plots(ctx, case, rng):
    import pyssht

    import sleplet

    P = sleplet.plotting
    named = []
    for L in (case["L"], case["L"] + 4):
        f = pyssht.inverse(np.ones(L * L, complex), L, Method="MWSS")
        for base in ("a", "a_b"):
            for t, norm, up in itertools.product(("real", "imag", "abs", "sum"), (True, False), (True, False)):
                p = P.PlotSphere(f, L, f"{base}_L{L}", plot_type=t, normalise=norm, upsample=up)
                named.append(((L, base, t, norm, up), p.filename))
                res = sleplet.plot_methods.calc_plot_resolution(L)
                want = f"{base}_L{L}{f'_res{res}' if up else ''}_{t}{'_norm' if norm else ''}"
                ctx.check(p.filename == want, "plot-name", f"{p.filename!r}, not {want!r}")
    distinct(ctx, "plot-name", named, "sphere plots")
    m = ml.mesh("cube", 10)
    for norm in (True, False):
        p = P.PlotMesh(m, "cube_x", np.zeros(len(m.vertices)), normalise=norm)
        ctx.check(p.filename == f"cube_x{'_norm' if norm else ''}", "plot-name", p.filename)


# ---------------------------------------------------------------- saved solutions
def do_locations(ctx, case, rng):
    named = []
    for t in ("polar", "gap"):
        for d in (0.8, 0.8 + 2e-6, 0.81, float(np.deg2rad(46)), 2.0):
            for L in (3, 4):
                s = rg.build({"type": t, "theta_max": d, "L": L})
                named.append(((t, d, L), s.matrix_location))
    b = rg.box(rng)
    for k in ("theta_max", "phi_min", None):
        for L in (3, 4):
            q = dict(b)
            if k:
                q[k] -= 1e-3 if q[k] > 1e-3 else -1e-3
                if q["theta_min"] >= q["theta_max"] or q["phi_min"] >= q["phi_max"]:
                    continue  # (slivers)
            named.append(((tuple(sorted(q.items())), L), rg.build({**q, "L": L}).matrix_location))
    for i, r in enumerate(rg.mask_regions(rng, 2, l_max=4)):
        named.append(((i, r["L"]), rg.build(r).matrix_location))
    distinct(ctx, "location-distinct", [({"p": p}, n) for p, n in named], "solutions")
    for p, n in named:
        ctx.check(f"_L{p[-1]}_" in n, "location-distinct", f"{p}: {n} does not say the band-limit")


# ---------------------------------------------------------------- other processes
def child_names(L, sub):
    rng = random.Random(sub)
    out = []
    for p in grid_of(rng, L, [*fc.FLM, *fc.FP], 14):
        out.append(name_of(p))
    out += [r._name_ending for r in (rg.region_of(rg.polar(rng)) for _ in range(6))]
    out += [r._name_ending for r in (rg.region_of(rg.box(rng)) for _ in range(6))]
    from sleplet import _class_lists as cl

    out += [c.__name__ for c in cl.COEFFICIENTS + cl.MESH_COEFFICIENTS]
    return out


def do_process(ctx, case, rng):
    a = {"L": rng.randint(4, 5), "sub": case["sub"]}
    here = child_names(**a)
    hs = [childlib.start(ctx, "c16", "child_names", a, data=ctx.scratch / f"o{k}", env=env)
          for k, env in enumerate([{"PYTHONHASHSEED": str(rng.randrange(1, 10**6))}, {"PYTHONHASHSEED": "7", "LC_ALL": "C", "NCPU": "1"}, {"TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8"}])]
    for h in hs:
        rc, res, tail = childlib.finish(h)
        if not res:
            raise MemoryError(f"child failed: {rc} {tail[-200:]}")
        ctx.check(res.get("ok") == here, "process", lambda: f"names of another process: {[x for x in zip(here, res['ok']) if x[0] != x[1]][:3] if 'ok' in res else res}")


# ---------------------------------------------------------------- classes
def do_classes(ctx, case, rng):
    import sleplet
    from sleplet import _class_lists as cl
    from sleplet import _string_methods as sm

    for lst, word in [(cl.COEFFICIENTS, ""), (cl.MAPS_LM, ""), (cl.MESH_COEFFICIENTS, "Mesh")]:
        names = sm.convert_classes_list_to_snake_case(lst, word_to_remove=word)
        ctx.check(len(names) == len(lst) == len(set(names)), "class-names", f"{names}")
        for c, n in zip(lst, names):
            back = word + "".join(w.capitalize() for w in n.split("_"))
            ctx.check(back == c.__name__ and n == n.lower() and " " not in n, "class-names", f"{c.__name__} is called {n!r}")
            home = sleplet.meshes if word else sleplet.functions
            ctx.check(getattr(home, c.__name__) is c, "class-names", f"{c.__name__} of {home.__name__}")
            ctx.nontrivial(n)
    every = {n for n in sleplet.functions.__all__ if n not in ("Coefficients", "Flm", "Fp")}
    ctx.check(every <= {c.__name__ for c in cl.COEFFICIENTS}, "class-names", lambda: f"without a name: {every - {c.__name__ for c in cl.COEFFICIENTS}}")
    skip = {"Mesh", "MeshSlepian", "MeshCoefficients", "MeshHarmonicCoefficients", "MeshSlepianCoefficients"}
    every = set(sleplet.meshes.__all__) - skip
    ctx.check(every <= {c.__name__ for c in cl.MESH_COEFFICIENTS}, "class-names", lambda: f"without a name: {every - {c.__name__ for c in cl.MESH_COEFFICIENTS}}")
    ctx.check(sorted(cl.MESHES) == sorted(ml.NAMES), "class-names", f"meshes {sorted(cl.MESHES)}")
