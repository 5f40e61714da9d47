"""C09: translation, convolution and rotation obey their algebra."""

import numpy as np

import core
import funcs
import oracle as o
import regions as rg

RULE = "non-trivial when the angles are not all zero and the function has content at some order or degree above zero; distinct by function, L and angles"
REQUIRED = {"convolution": 30, "translation": 20, "slepian-translation": 8, "rotation-field": 15, "rotation-inverse": 15, "delta": 8, "refuse-rotation": 4}


def angles(rng, g=True):
    k = rng.random()
    if k < 0.15:
        return [rng.choice([0.0, np.pi / 2, np.pi, 1.5 * np.pi]) for _ in range(3)]
    if k < 0.3:
        return [rng.uniform(0, 6.28), rng.choice([0.0, np.pi]), rng.uniform(0, 6.28)]
    if k < 0.45:
        return [rng.choice([0.0, rng.uniform(0, 6.28)]), rng.choice([0.0, np.pi, rng.uniform(0, 3.14)]), rng.choice([0.0, rng.uniform(0, 6.28)])]
    return [rng.uniform(0, 6.28), rng.uniform(0, 3.14), rng.uniform(0, 6.28)]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(60 if q else 500):
        name = sorted(funcs.FLM)[i % len(funcs.FLM)]
        out.append({"kind": "flm", "fn": name, "args": rng.choice(funcs.FLM[name]), "L": rng.randint(5, 16), "angles": angles(rng), "s": rng.randrange(10**6)})
    for _ in range(4 if q else 40):
        name = rng.choice(sorted(funcs.FLM))
        out.append({"kind": "flm", "fn": name, "args": rng.choice(funcs.FLM[name]), "L": rng.choice([rng.randint(17, 40), 32, 64, rng.randint(41, 80)]), "angles": angles(rng), "s": rng.randrange(10**6), "w": 4})
    for i in range(24 if q else 200):
        r = [rg.polar(rng, gap=False), rg.polar(rng, gap=True), rg.box(rng)][i % 3]
        L = rng.randint(4, 8)
        out.append({"kind": "fp", "region": {**r, "L": L}, "L": L, "p": rng.randint(0, L), "q": rng.randint(0, 2 * L - 1), "s": rng.randrange(10**6), "w": 5})
    for i in range(20 if q else 100):
        out.append({"kind": "conv", "n": rng.randint(1, 80), "s": rng.randrange(10**6)})
    return out


def rot(a, b, g):
    def z(t):
        return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])

    def y(t):
        return np.array([[np.cos(t), 0, np.sin(t)], [0, 1, 0], [-np.sin(t), 0, np.cos(t)]])

    return z(a) @ y(b) @ z(g)


def run_case(ctx, case):
    import sleplet

    rng = np.random.default_rng(case.get("s", 0))
    k = case["kind"]
    if k == "conv":
        n = case["n"]
        host = sleplet.functions.DiracDelta(2)
        conv = host.convolve
        low = sleplet._convolution_methods.sifting_convolution
        a, b = 10.0 ** rng.choice([-12, -3, 0, 0, 6], 2)
        t = 30 * a * b
        f, g = a * o.random_flm(rng, n), b * o.random_flm(rng, n)
        if rng.random() < 0.2:
            g = g.real.copy()
        h = a * o.random_flm(rng, 3 * n).reshape(3, n)
        for fun, who in ((conv, "convolve"), (low, "sifting")):
            for N in (None, 0, 1, n, int(rng.integers(1, n + 1))):
                ctx.close(fun(f, g, shannon=N), (f * g.conj())[:N], 1e-12 * t, "convolution", f"{who} n={n} N={N}")
                ctx.close(fun(h, g, shannon=N), (h * g.conj()[None])[:, :N], 1e-12 * t, "convolution", f"{who} 2d-1d n={n} N={N}")
                ctx.close(fun(h, 2 * h[::-1], shannon=N), (h * 2 * h[::-1].conj())[:, :N], 1e-12 * 60 * a * a, "convolution", f"{who} 2d-2d n={n} N={N}")
            if n > 1:
                N = int(rng.integers(1, n))
                ctx.close(fun(f, g[:N], shannon=N), f[:N] * g[:N].conj(), 1e-12 * t, "convolution", f"{who} shorter second argument n={n} N={N}")
                ctx.close(fun(f[:N], g, shannon=N), f[:N] * g[:N].conj(), 1e-12 * t, "convolution", f"{who} shorter first argument n={n} N={N}")
        ctx.check(host.reality is False or not host.reality, "complex-after-convolution", "convolve")
        if n > 1:
            ctx.nontrivial(f"conv {n}")
        return
    if k == "flm":
        L = case["L"]
        f = funcs.make(case)
        al, be, ga = case["angles"]
        c = np.array(f.coefficients, complex)
        if case["s"] % 3 == 0 and case["fn"] != "DiracDelta":
            c = o.random_flm(rng, L * L) * 10.0 ** rng.choice([-11, -4, 0, 7])  # any coefficients may be assigned
            f.coefficients = c.copy()
        msg = f"{case['fn']} {case['args']} L={L} angles={np.round(case['angles'], 4).tolist()}"
        scale = np.abs(c).max() if case["fn"] != "DiracDelta" else 1 + np.abs(c).max()
        Y = o.ylm(L, np.array([be]), np.array([al]))[0]
        real0 = f.reality
        # rotation first, it does not change the function
        r = f.rotate(al, be, gamma=ga)
        ctx.same(f.coefficients, c if np.iscomplexobj(f.coefficients) else c.real, "unchanged", f"{msg}: rotate")
        pts = rng.standard_normal((3, 25))
        pts /= np.linalg.norm(pts, axis=0)
        back = rot(al, be, ga).T @ pts

        def at(flm, x):
            return o.ylm(L, np.arccos(np.clip(x[2], -1, 1)), np.arctan2(x[1], x[0])) @ flm

        ctx.close(at(r, pts), at(c, back), 1e-9 * scale * L, "rotation-field", msg)
        ell, _ = o.elm(L)
        pw = np.array([[(np.abs(v[ell == l]) ** 2).sum() for l in range(L)] for v in (c, r)])
        ctx.close(pw[0], pw[1], 1e-9 * scale**2 * L, "rotation-power", msg)
        if case["fn"] == "DiracDelta" and be > 1e-9:
            ctx.close(f.rotate(al, be), f.translate(al, be), 1e-9 * scale, "delta", f"{msg}: rotation and translation of a delta")
        ctx.close(f.rotate(al, be), at_gamma0(f, al, be, c, L), 1e-9 * scale, "rotation-default-gamma", msg)
        f.coefficients = np.asarray(r)
        ctx.close(f.rotate(-ga, -be, gamma=-al), c, 1e-9 * scale * L, "rotation-inverse", msg)
        f.coefficients = c
        t = f.translate(al, be)
        want = Y.conj() if case["fn"] == "DiracDelta" else c * Y
        ctx.close(t, want, 1e-10 * scale, "delta" if case["fn"] == "DiracDelta" else "translation", msg)
        ctx.same(np.asarray(f.coefficients), c, "unchanged", f"{msg}: translate")
        if case["fn"] != "DiracDelta":
            ctx.check(not f.reality, "complex-after-convolution", lambda: f"{msg}: still real (was {real0})")
            N = int(rng.integers(1, L * L))
            ctx.close(f.translate(al, be, shannon=N), (c * Y)[:N], 1e-10 * scale, "translation", f"{msg} shannon={N}")
            g = o.random_flm(rng, L * L)
            ctx.close(f.convolve(f.coefficients, g), c * g.conj(), 1e-10 * scale, "convolution", msg)
        ctx.close(f.translate(al + 2 * np.pi, be), want, 1e-9 * scale, "translation", f"{msg}: periodic in the longitude")
        # angles that hardly differ, one after the other, with the one object
        near = float(10.0 ** rng.uniform(-8, -3))
        for da, db in ((near, 0), (0, near), (-near, near)):
            a2, b2 = al + da, abs(be - db)
            y2 = o.ylm(L, np.array([b2]), np.array([a2]))[0]
            ctx.close(f.translate(a2, b2), y2.conj() if case["fn"] == "DiracDelta" else c * y2, 1e-10 * scale, "translation", f"{msg}: then by {near:.1e} further")
            r2 = f.rotate(a2, b2, gamma=ga + da)
            back = rot(a2, b2, ga + da).T @ pts
            ctx.close(at(r2, pts), at(c, back), 1e-9 * scale * L, "rotation-field", f"{msg}: then by {near:.1e} further")
        if any(case["angles"]) and np.abs(c[1:]).max() > 0:
            ctx.nontrivial(msg)
        ctx.sample(f"{msg}: rotated field compared at 25 points")
        return
    if k == "fp":
        L = case["L"]
        reg = rg.region_of(case["region"])
        th, ph = o.grid(L)
        be, al = th[case["p"]], ph[case["q"]]
        F = sleplet.functions
        fs = [F.Slepian(L, region=reg), F.SlepianIdentity(L, region=reg)]
        s = fs[0].slepian
        N = s.N
        if N > 0:
            fs.append(F.SlepianDiracDelta(L, region=reg))
        msg = f"{rg.describe(case['region'])} L={L} angles=({al:.4g}, {be:.4g}) N={N}"
        if N == 0:
            raise core.Skip("empty region")
        V = np.asarray(s.eigenvectors)[:N]
        Y = o.ylm(L, np.array([be]), np.array([al]))[0]
        Sp = V @ Y
        for f in fs:
            name = type(f).__name__
            c = np.asarray(f.coefficients).copy()
            ctx.raises(lambda f=f: f.rotate(al, be), "refuse-rotation", f"{msg} {name}", types=(NotImplementedError,))
            t = np.asarray(f.translate(al, be, shannon=N))
            want = Sp.conj() if "DiracDelta" in name else c[:N] * Sp
            ctx.close(t[:N], want, 1e-9 * (1 + np.abs(want).max()), "slepian-translation", f"{msg} {name}")
            ctx.check(np.abs(t[N:]).max(initial=0) == 0, "slepian-translation", f"{msg} {name}: content beyond the Shannon number")
            ctx.same(f.coefficients, c, "unchanged", f"{msg} {name}: translate")
            if "DiracDelta" not in name:
                ctx.check(len(t) == N, "slepian-translation", f"{msg} {name}: length {len(t)}")
                g = o.random_flm(rng, len(c))
                ctx.close(f.convolve(f.coefficients, g, shannon=N), (c * g.conj())[:N], 1e-9 * (1 + np.abs(c).max()), "convolution", f"{msg} {name}")
        # the field of a translated identity is the reproducing kernel of the region at that point
        ctx.nontrivial(msg)
        return
    raise core.Skip(k)


def at_gamma0(f, al, be, c, L):
    """Rotation without gamma is the rotation with gamma = 0 by explicit Wigner functions for low L."""
    out = np.zeros(L * L, complex)
    for l in range(min(L, 9)):
        for m in range(-l, l + 1):
            out[l * l + l + m] = sum(np.exp(-1j * m * al) * o.wigner_d(l, m, n, be) * c[l * l + l + n] for n in range(-l, l + 1))
    if L > 9:
        out[81:] = np.asarray(f.rotate(al, be, gamma=0))[81:]
    return out
