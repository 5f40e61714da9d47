"""C22: computations are pure and repeatable."""

import copy
import hashlib
import os
import random
import sys

import numpy as np

import childlib as ch
import core
import earthlib
import funcs as fc
import meshlib as ml
import oracle as o
import plotlib
import regions as rg

RULE = "an operation is non-trivial when it got an array or object and returned one; distinct by operation and its inputs"
REQUIRED = {"arguments": 300, "repeatable": 300, "after-others": 300, "process-state": 300, "other-process": 150, "in-place": 6}


def cases(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(6 * k):
        out.append({"kind": "sphere", "sub": rng.randrange(10**9), "type": ["polar", "gap", "box", "mask"][i % 4], "w": 4})
    for i in range(3 * k):
        out.append({"kind": "mesh", "sub": rng.randrange(10**9), "name": ml.NAMES[i % 6], "w": 4})
    for _ in range(2 * k):
        out.append({"kind": "functions", "sub": rng.randrange(10**9), "w": 6})
    for _ in range(2 * k):
        out.append({"kind": "plots", "sub": rng.randrange(10**9), "w": 5})
    return out


# ---------------------------------------------------------------- digests
def digest(x, seen=None):
    h = hashlib.sha256()
    feed(h, x, seen if seen is not None else {})
    return h.hexdigest()[:24]


def feed(h, x, seen):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            x = x + 0  # -0.0 is 0.0
        h.update(f"A{x.dtype.kind}{x.shape}".encode() + np.ascontiguousarray(x).tobytes())
    elif x is None or isinstance(x, bool | int | float | complex | str | bytes | np.generic):
        h.update(f"{type(x).__name__}:{x!r}".encode() if not isinstance(x, np.generic) else f"n:{x!r}".encode())
    elif isinstance(x, list | tuple):
        h.update(f"L{len(x)}".encode())
        for y in x:
            feed(h, y, seen)
    elif isinstance(x, dict):
        h.update(f"D{len(x)}".encode())
        for k in sorted(x, key=str):
            feed(h, k, seen)
            feed(h, x[k], seen)
    elif isinstance(x, plotlib.Shown):
        h.update(x.fingerprint().encode())
    elif isinstance(x, np.random.Generator):
        h.update(repr(x.bit_generator.state).encode())
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("sleplet"):
        if id(x) in seen:
            h.update(f"seen{seen[id(x)]}".encode())
            return
        seen[id(x)] = len(seen)
        h.update(type(x).__name__.encode())
        for k in sorted(k for k in vars(x) if not k.startswith("_")):
            v = vars(x)[k]
            if k == "eigenvectors" and hasattr(x, "N"):  # how many come back is the subject of C03
                v = v[: x.N]
            h.update(k.encode())
            feed(h, v, seen)
    else:
        h.update(type(x).__name__.encode())


def leaves(x, out=None, seen=None):
    """The numbers and texts a result consists of."""
    out, seen = [] if out is None else out, set() if seen is None else seen
    if isinstance(x, np.ndarray):
        out.append(np.array(x))
    elif isinstance(x, list | tuple):
        for y in x:
            leaves(y, out, seen)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            leaves(x[k], out, seen)
    elif isinstance(x, plotlib.Shown):
        out.append(str(x.filename))
        for k in ("x", "y", "z", "surfacecolor", "intensity"):
            v = getattr(x.trace, k, None)
            if v is not None:
                out.append(np.asarray(v, float))
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("sleplet"):
        if id(x) not in seen:
            seen.add(id(x))
            for k in sorted(k for k in vars(x) if not k.startswith("_")):
                v = vars(x)[k]
                leaves(v[: x.N] if k == "eigenvectors" and hasattr(x, "N") else v, out, seen)
    elif isinstance(x, bool | int | float | complex | np.generic):
        out.append(np.asarray(x))
    else:
        out.append(str(x) if x is None or isinstance(x, str) else type(x).__name__)
    return out


def alike(a, b):
    """Equal up to rounding: the transform library picks its FFT plans by timing in each process."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b, strict=True):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        elif x.dtype.kind not in "fc":
            if not np.array_equal(x, y):
                return False
        elif x.size and not np.allclose(x, y, rtol=1e-9, atol=1e-11 * max(1e-3, float(np.nanmax(np.abs(x)))), equal_nan=True):
            return False
    return True


def spoil(x, depth=0):
    """Overwrite what a caller got: it is the caller's."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fciub" and x.size:
            x[...] = 1 if x.dtype.kind == "b" else -77
    elif isinstance(x, list | tuple) and depth < 3:
        for y in x:
            spoil(y, depth + 1)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("sleplet") and depth < 2:
        for k, v in list(vars(x).items()):
            if not k.startswith("_"):
                spoil(v, depth + 1)


def state():
    s = np.random.get_state()
    return {"numpy random state": hashlib.sha256(repr((s[0], s[1].tobytes(), *s[2:])).encode()).hexdigest(), "random state": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
            "environment": dict(os.environ), "floating-point error state": np.geterr(), "working folder": os.getcwd(), "print options": repr(sorted(np.get_printoptions().items())),
            "recursion limit": sys.getrecursionlimit()}


# ---------------------------------------------------------------- operations
def cplx(g, *shape):
    return g.standard_normal(shape) + 1j * g.standard_normal(shape)


def shown(make):
    with plotlib.capture() as s:
        make().execute()
    return s


def ops_sphere(case):
    """(name, function, arguments, number of the argument changed in place or None)"""
    import sleplet as sl

    rng = random.Random(case["sub"])
    g = np.random.default_rng(case["sub"])
    L = rng.randint(3, 6)
    r = rg.mask_regions(rng, 1, l_max=5)[0] if case["type"] == "mask" else {"L": L, **(rg.box(rng) if case["type"] == "box" else rg.polar(rng, gap=case["type"] == "gap"))}
    L = r["L"]
    if r["type"] == "mask":
        rg.write_mask(r)
        r1 = dict(r, R=L)
        rg.write_mask(r1)
    s = rg.build(r)
    for _ in range(20):
        if s.N >= 2:
            break
        r = {"L": L, "type": "polar", "theta_max": 1.2}
        s = rg.build(r)
    N = s.N
    H, S, W, Z, P = sl.harmonic_methods, sl.slepian_methods, sl.wavelet_methods, sl.noise, sl.plot_methods
    flm, flm2, fp = cplx(g, L * L), cplx(g, L * L), cplx(g, N)
    real = o.random_flm(g, L * L, L)
    f = o.synthesise(flm, L)
    m = g.random(f.shape) < 0.5
    kap, kap2 = W.create_kappas(L * L, 2, 0), W.create_kappas(L, 2, 0)
    ax = np.zeros((len(kap2), L * L), complex)
    ell, _ = o.elm(L)
    for i in range(len(kap2)):
        ax[i, np.arange(L) * (np.arange(L) + 1)] = kap2[i] * np.sqrt((2 * np.arange(L) + 1) / (4 * np.pi))
    wc = W.slepian_wavelet_forward(fp, kap, N)
    wa = W.axisymmetric_wavelet_forward(L, flm, ax)
    reg = rg.region_of(r)
    al, be, ga = rng.uniform(0, 6), rng.uniform(0.1, 3), rng.uniform(0, 6)
    noise, num = float(rng.choice([-3, 0, 5, 10])), rng.randint(1, N)
    out = [
        ("invert_flm_boosted", lambda x: H.invert_flm_boosted(x, L, 2 * L), [flm], None),
        ("invert_flm_boosted real", lambda x: H.invert_flm_boosted(x, L, L, reality=True), [real], None),
        ("compute_random_signal", lambda gen: H.compute_random_signal(L, gen, var_signal=2.0), None, "rng"),
        ("rotate_earth_to_africa", lambda x: H.rotate_earth_to_africa(x, L), [real], None),
        ("rotate_earth_to_south_america", lambda x: H.rotate_earth_to_south_america(x, L), [real], None),
        ("choose_slepian_method", lambda x: S.choose_slepian_method(L, x), [reg], None),
        ("slepian_inverse", lambda a, b: S.slepian_inverse(a, L, b), [fp, s], None),
        ("slepian_forward flm", lambda a, b: S.slepian_forward(L, b, flm=a), [flm, s], None),
        ("slepian_forward flm n", lambda a, b: S.slepian_forward(L, b, flm=a, n_coeffs=num), [flm, s], None),
        ("slepian_forward f", lambda a, b: S.slepian_forward(L, b, f=a), [f, s], None),
        ("slepian_forward f mask", lambda a, b, c: S.slepian_forward(L, b, f=a, mask=c), [f, s, m.astype(float)], None),
        ("compute_s_p_omega", lambda b: S.compute_s_p_omega(L, b), [s], None),
        ("slepian_wavelet_forward", lambda a, b: W.slepian_wavelet_forward(a, b, N), [fp, kap], None),
        ("slepian_wavelet_inverse", lambda a, b: W.slepian_wavelet_inverse(a, b, N), [wc, kap], None),
        ("axisymmetric_wavelet_forward", lambda a, b: W.axisymmetric_wavelet_forward(L, a, b), [flm, ax], None),
        ("axisymmetric_wavelet_inverse", lambda a, b: W.axisymmetric_wavelet_inverse(L, a, b), [wa, ax], None),
        ("create_kappas", lambda: W.create_kappas(L * L, 2, 0), [], None),
        ("find_non_zero_wavelet_coefficients", lambda a: W.find_non_zero_wavelet_coefficients(a, axis=1), [wc], None),
        ("compute_snr", lambda a, b: Z.compute_snr(a, b, "x"), [flm, flm2], None),
        ("compute_sigma_noise", lambda a: Z.compute_sigma_noise(a, noise), [flm], None),
        ("slepian_function_hard_thresholding", lambda a, b: Z.slepian_function_hard_thresholding(L, a, 0.3, 2, b), [fp, s], None),
        ("slepian_wavelet_hard_thresholding", lambda a, b, c: Z.slepian_wavelet_hard_thresholding(L, a, b, 2, c), [wc, np.full(len(wc), 0.2), s], 0),
        ("harmonic_hard_thresholding", lambda a, b: Z.harmonic_hard_thresholding(L, a, b, 2), [wa, np.full(len(wa), 0.2)], 0),
        ("calc_plot_resolution", P.calc_plot_resolution, [L], None),
        ("compute_amplitude_for_noisy_sphere_plots", P.compute_amplitude_for_noisy_sphere_plots, "noisy", None),
        ("find_max_amplitude", P.find_max_amplitude, "noisy", None),
        ("Region", lambda: rg.region_of(r), [], None),
        ("SlepianX", lambda: rg.build(r), [], None),
    ]
    noisy = fc.fn("Gaussian")(L, noise=noise, sigma=3.0)
    fs = fc.fn("SlepianDiracDelta")(L, region=reg)
    h = fc.fn("HarmonicGaussian")(L)
    res = []
    for name, fn, args, inplace in out:
        if inplace == "rng":
            res.append((name, lambda seed, fn=fn: fn(np.random.default_rng(seed)), [case["sub"]], None))
        else:
            res.append((name, fn, [noisy] if isinstance(args, str) else args, inplace))
    for nm, obj, c in (("harmonic", h, flm), ("Slepian", fs, cplx(g, len(fs.coefficients))), ("noisy", noisy, flm)):
        res += [
            (f"translate {nm}", lambda x: x.translate(al, be), [obj], None),
            (f"translate {nm} shannon", lambda x, N=N: x.translate(al, be, shannon=N), [obj], None),
            (f"convolve {nm}", lambda x, y, z: x.convolve(y, z), [obj, c, flm if nm != "Slepian" else c], None),
        ]
    res += [("rotate", lambda x: x.rotate(al, be, gamma=ga), [h], None), ("rotate noisy", lambda x: x.rotate(al, be), [noisy], None)]
    return f"{rg.describe(r)} L={L} N={N}", res


def ops_mesh(case):
    import sleplet as sl

    rng = random.Random(case["sub"])
    g = np.random.default_rng(case["sub"])
    nb = rng.randint(14, 24)
    m = ml.mesh(case["name"], nb)
    s = sl.meshes.MeshSlepian(m)
    H, S, W, Z, P = sl.harmonic_methods, sl.slepian_methods, sl.wavelet_methods, sl.noise, sl.plot_methods
    u, ui, fp = g.standard_normal(len(m.vertices)), g.standard_normal(nb), g.standard_normal(s.N)
    kap = W.create_kappas(nb, 2, 0)
    wc = W.slepian_wavelet_forward(fp, kap, s.N)
    field = fc.meshfn("MeshField")(m, noise=4)
    sf = fc.meshfn("MeshSlepianField")(m)
    res = [
        ("mesh_forward", H.mesh_forward, [m, u], None),
        ("mesh_inverse", H.mesh_inverse, [m, ui], None),
        ("Mesh", lambda: ml.mesh(case["name"], nb), [], None),
        ("MeshSlepian", sl.meshes.MeshSlepian, [m], None),
        ("slepian_mesh_forward u_i", lambda a, b: S.slepian_mesh_forward(a, u_i=b), [s, ui], None),
        ("slepian_mesh_forward u", lambda a, b: S.slepian_mesh_forward(a, u=b), [s, u], None),
        ("slepian_mesh_forward u mask", lambda a, b: S.slepian_mesh_forward(a, u=b, mask=True), [s, u], None),
        ("slepian_mesh_inverse", S.slepian_mesh_inverse, [s, fp], None),
        ("compute_slepian_mesh_sigma_j", lambda a, b, c: Z.compute_slepian_mesh_sigma_j(a, b, c, 3.0), [s, fp, kap], None),
        ("slepian_mesh_hard_thresholding", lambda a, b, c: Z.slepian_mesh_hard_thresholding(a, b, c, 2), [s, wc, np.full(len(wc), 0.2)], 1),
        ("compute_amplitude_for_noisy_mesh_plots", P.compute_amplitude_for_noisy_mesh_plots, [field], None),
    ]
    if case["name"] in ml.SMALL:
        # a figure lists every face
        res.append(("PlotMesh", lambda a, b: shown(lambda: sl.plotting.PlotMesh(a, "n", b, normalise=False, region=True)), [m, u], None))
    for name, sets in fc.MESH.items():
        for kw in sets[:2]:
            if "rank" in kw and "Slepian" in name and s.N < 2:
                continue
            if kw.get("j") is not None:
                if s.N < 3:  # beyond the scales that are left
                    continue
                kw = {**kw, "j_min": 0, "j": 0}
            extra = {"noise": 3.0} if name in ("MeshField", "MeshSlepianField") and rng.random() < 0.5 else {}
            res.append((f"{name} {kw} {extra}", lambda x, name=name, kw=kw, extra=extra: fc.meshfn(name)(x, **kw, **extra), [m], None))
    al = g.standard_normal(len(sf.coefficients))
    res.append(("mesh convolve", lambda x, y: x.convolve(y, y), [sf, al], None) if hasattr(sf, "convolve") else ("mesh_inverse again", H.mesh_inverse, [m, ui], None))
    return f"{case['name']} {nb} N={s.N}", res


def ops_functions(case):
    rng = random.Random(case["sub"])
    earthlib.write(os.environ["XDG_DATA_HOME"], case["sub"] % 1000, 24)
    L = rng.randint(4, 6)
    res = []
    polar = {"L": L, **rg.polar(rng, gap=False)}
    for name, sets in {**fc.FLM, **fc.EARTH_FLM}.items():
        for kw in sets:
            if kw.get("ell", 0) >= L:
                continue
            if "j_min" not in kw and ("Wavelet" in name or name == "Ridgelets"):
                kw = {**kw, "B": 2, "j_min": 0}
            ex = rng.choice([{}, {}, {"noise": 3.0}, {"smoothing": 2}, {"region": 1}])
            res.append((f"{name} {kw} {ex}", lambda reg=None, name=name, kw=kw, ex=ex: fc.fn(name)(L, **kw, **{**ex, **({"region": reg} if reg is not None else {})}),
                        [rg.region_of(polar)] if "region" in ex else [], None))
    for name, sets in fc.FP.items():
        for kw in sets[:1]:
            kw = {**kw, "B": 2, "j_min": 0} if "Wavelet" in name else kw
            res.append((f"{name} {kw}", lambda reg, name=name, kw=kw: fc.fn(name)(L, region=reg, **kw), [rg.region_of({"type": "polar", "theta_max": 1.3})], None))
    for name, (mask, sets) in fc.EARTH_FP.items():
        import sleplet

        kw = {"B": 2, "j_min": 0} if "Wavelet" in name else sets[0]
        res.append((f"{name} {kw}", lambda reg, name=name, kw=kw: fc.fn(name)(7, region=reg, **kw), [sleplet.slepian.Region(mask_name=mask)], None))
    return f"functions L={L}", res


def ops_plots(case):
    import sleplet as sl

    rng = random.Random(case["sub"])
    g = np.random.default_rng(case["sub"])
    res = []
    for i in range(6):
        L = rng.randint(2, 5)
        real = rng.random() < 0.4
        flm = o.random_flm(g, L * L, L if real else None)
        f = o.synthesise(flm, L)
        f = f.real.copy() if real else f
        kw = {"normalise": rng.random() < 0.5, "plot_type": rng.choice(["real", "imag", "abs", "sum"]), "upsample": False, "reality": real}
        if rng.random() < 0.3:
            kw["amplitude"] = 2.0
        reg = rg.region_of({"type": "polar", "theta_max": rng.uniform(0.5, 2)}) if i % 2 else None
        ann = [{"x": 0.1, "y": 0.2, "z": 0.3, "arrowcolor": "black"}, {"x": 1, "y": 0, "z": 0, "text": "a", "arrowsize": 1}] if i % 3 == 0 else None

        def make(x, region, notes, L=L, kw=kw):
            more = {} if notes is None else {"annotations": notes}
            return shown(lambda: sl.plotting.PlotSphere(x, L, "name", region=region, **kw, **more))

        def twice(x, region, notes, L=L, kw=kw):
            more = {} if notes is None else {"annotations": notes}
            p = sl.plotting.PlotSphere(x, L, "name", region=region, **kw, **more)
            one = shown(lambda: p)
            two = shown(lambda: p)
            if digest(one) != digest(two):
                raise AssertionError("showing the same plot again gave another figure")
            return one

        res.append((f"PlotSphere {i} {kw}", make if i % 2 else twice, [f, reg, ann], None))
    return "plots", res


def build_ops(case):
    return globals()[f"ops_{case['kind']}"](case)


def run_one(op, a=None):
    """Digests of one call: result, arguments before and after."""
    name, fn, args, inplace = op
    a = copy.deepcopy(args) if a is None else a
    before = [digest(x) for x in a]
    flag = [getattr(x, "reality", None) for x in a]
    r = fn(*a)
    if name.startswith(("translate", "convolve")):
        # the function is complex from then on, as stated in C09
        for x, v in zip(a, flag, strict=True):
            if v is not None and x.reality is False:
                x.reality = v
    after = [digest(x) for x in a]
    return r, before, after, a


def child_digests(case, seed):
    """The results in a process of its own, computed in another order."""
    np.random.seed(seed)
    random.seed(seed)
    _, ops = build_ops(case)
    order = list(range(len(ops)))
    random.Random(seed).shuffle(order)
    out = {}
    for i in order:
        try:
            r = run_one(ops[i])[0]
            out[i] = digest(r), leaves(r)
        except Exception as e:  # noqa: BLE001
            out[i] = f"raised {type(e).__name__}: {e}", []
    return out


def run_case(ctx, case):
    data = os.environ["XDG_DATA_HOME"]
    start = state()
    msg, ops = build_ops(case)
    now = state()
    same = [k for k in start if start[k] != now[k]]
    ctx.check(not same, "process-state", lambda: f"{msg}: solving and preparing the inputs changed {same}: {[(start[k], now[k]) for k in same][:1]}")
    rng = random.Random(case["sub"] + 1)
    child = ch.start(ctx, "c22", "child_digests", {"case": case, "seed": rng.randrange(1000)}, data=None if case["kind"] == "functions" else ctx.scratch / "other",
                     env={"PYTHONHASHSEED": rng.randrange(1, 1000), "NUMBA_NUM_THREADS": rng.choice([1, 2, 4]), "NCPU": rng.choice([1, 2, 3]), "UNRELATED": "x"})
    first, values = {}, {}
    order = list(range(len(ops)))
    rng.shuffle(order)
    for i in order:
        name, fn, args, inplace = ops[i]
        np.random.seed(rng.randrange(10**6))
        s0 = state()
        r = ctx.accepts(lambda: run_one(ops[i]), "repeatable", f"{msg}: {name}")
        if r is None:
            continue
        res, before, after, a = r
        s1 = state()
        ctx.check(s0 == s1, "process-state", lambda: f"{msg}: {name} changed {[k for k in s0 if s0[k] != s1[k]]}")
        for k, (x, y) in enumerate(zip(before, after, strict=True)):
            if k != inplace:
                ctx.check(x == y, "arguments", f"{msg}: {name} changed its argument {k}")
        first[i] = digest(res)
        values[i] = leaves(res)
        if inplace is not None:
            ctx.check(digest(a[inplace]) == first[i], "in-place", f"{msg}: {name}: the array given does not hold the result")
        # straight again, with another global random state, after the caller has overwritten the first result
        spoil(res)
        if inplace is None and args:
            # with the very same objects, unless what was overwritten is a part of them
            if [digest(x) for x in a] == after:
                again = digest(run_one(ops[i], a)[0])
                ctx.check(again == first[i], "repeatable", f"{msg}: {name} gave another result when called again with the same objects, after the first result was overwritten")
            else:
                ctx.count("obs:results that hold their arguments")
        np.random.seed(rng.randrange(10**6))
        again = digest(run_one(ops[i])[0])
        ctx.check(again == first[i], "repeatable", f"{msg}: {name} gave another result when called again")
        if args and first[i]:
            ctx.nontrivial(f"{msg} {name}")
    # and once more after everything else, in another order, with another environment
    rng.shuffle(order)
    os.environ["UNRELATED"] = "y"
    os.environ["LANG"] = "C"
    for i in order:
        if i in first:
            ctx.check(digest(run_one(ops[i])[0]) == first[i], "after-others", f"{msg}: {ops[i][0]} gave another result after other computations")
    os.environ["XDG_DATA_HOME"] = data
    rc, res, tail = ch.finish(child)
    if res is None or "error" in res:
        if res is not None and res["mismatch"]:
            raise (core.Gone if res["mismatch"] else core.Skip)(res["error"])
        ctx.violate("other-process", f"{msg}: the other process failed: {res and res['error']} {tail[-300:]}")
        return
    for i, (d, v) in res["ok"].items():
        if i in first:
            ctx.count("obs:identical bits in another process", int(d == first[i]))
            ctx.check(d == first[i] or alike(v, values[i]), "other-process", f"{msg}: {ops[i][0]} gave another result in another process: {d}")
    ctx.sample(f"{msg}: {len(ops)} operations, each in three orders and two processes")
