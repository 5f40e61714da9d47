"""C07: Slepian analysis and synthesis are inner products and sums of the basis."""

import numpy as np

import core
import oracle as o
import regions as rg

RULE = "a transform is non-trivial when at least two coefficients and at least one function are involved; distinct by region, L and kind of data"
REQUIRED = {"analysis-harmonic": 15, "analysis-sphere": 15, "analysis-region": 10, "analysis-weighted": 10, "synthesis": 15, "roundtrip": 15, "choose": 6}


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for r in rg.sphere_regions(rng, 45 if q else 400, l_max=11 if q else 18, polar_l_max=9 if q else 16, l_min=2):
        out.append({"kind": "transform", "w": r["L"], "s": rng.randrange(10**6), **r})
    for r in rg.mask_regions(rng, 14 if q else 70, l_max=7 if q else 10, more=True):
        out.append({"kind": "transform", "w": 2 * r["L"], "s": rng.randrange(10**6), **r})
    for i in range(9):
        r = [rg.polar(rng, gap=False), rg.polar(rng, gap=True), rg.box(rng)][i % 3] if i < 7 else rg.mask_regions(rng, 1, l_max=5)[0]
        out.append({"kind": "choose", **r, "L": rng.randint(3, 6)})
    return out


def run_case(ctx, case):
    import pyssht as ssht
    import sleplet

    sm = sleplet.slepian_methods
    L = case["L"]
    msg = f"{rg.describe(case)} L={L}"
    s = rg.build(case)
    if case["kind"] == "choose":
        c = sm.choose_slepian_method(L, rg.region_of(case))
        ctx.check(type(c) is type(s), "choose", lambda: f"{msg}: {type(c).__name__} instead of {type(s).__name__}")
        ctx.same(c.eigenvalues, s.eigenvalues, "choose", f"{msg}: eigenvalues")
        ctx.check(c.N == s.N and c.L == L and c.name == s.name, "choose", f"{msg}: N, L or name")
        ctx.same(np.asarray(c.mask), np.asarray(s.mask), "choose", f"{msg}: mask")
        return
    N = s.N
    V, lam = np.asarray(s.eigenvectors), np.asarray(s.eigenvalues)
    rng = np.random.default_rng(case["s"])
    total = len(V)
    n_all = min(total, max(N, 3) + (4 if case['s'] % 2 else 40))
    W = o.pixel_weights(L)
    S = np.array([o.synthesise(v, L) for v in V[:n_all]])
    mask = np.asarray(s.mask) if case["type"] != "mask" else rg.mask_array({**case, "name": "x"}, L)
    ell, _ = o.elm(L)

    # analysis of harmonic coefficients
    for kind in ("complex", "real", "sparse", "zero", "huge", "tiny", "nearly real"):
        flm = o.random_flm(rng, L * L)
        if kind == "real":
            flm = flm.real.copy()
        if kind == "sparse":
            flm = np.where(rng.random(L * L) < 0.2, flm, 0)
        if kind == "zero":
            flm = np.zeros(L * L, complex)
        if kind == "huge":
            flm = flm * 1e8
        if kind == "tiny":
            flm = flm * 10.0 ** -rng.integers(8, 14)
        if kind == "nearly real":
            flm = flm.real + 1e-9j * flm.imag
        want = V.conj() @ flm
        scale = np.abs(flm).max() + 1e-300
        got = sm.slepian_forward(L, s, flm=flm)
        ctx.close(got, want[:N], 1e-11 * scale, "analysis-harmonic", f"{msg} {kind}")
        for n in {1, n_all, total}:
            ctx.close(sm.slepian_forward(L, s, flm=flm, n_coeffs=n), want[:n], 1e-11 * scale, "number-of-coefficients", f"{msg} {kind} n={n}")
    # analysis of fields
    for kind in ("bandlimited", "arbitrary", "real", "tiny", "whole numbers"):
        f = o.synthesise(o.random_flm(rng, L * L), L)
        if kind == "arbitrary":
            f = rng.standard_normal(S[0].shape) + 1j * rng.standard_normal(S[0].shape)
        if kind == "real":
            f = rng.standard_normal(S[0].shape)
        if kind == "tiny":
            f = f * 10.0 ** -rng.integers(8, 14)
        if kind == "whole numbers":
            f = rng.integers(-3, 4, S[0].shape)
        size = np.abs(f).max() + 1e-300
        want = np.einsum("pab,ab->p", S.conj(), f * W)
        ctx.close(sm.slepian_forward(L, s, f=f, n_coeffs=n_all), want, 1e-10 * size, "analysis-sphere", f"{msg} {kind}")
        ctx.check(len(sm.slepian_forward(L, s, f=f)) == N, "number-of-coefficients", f"{msg} {kind}")
        none = [sm.slepian_forward(L, s, n_coeffs=0, **kw) for kw in ({"flm": flm}, {"f": f}, {"f": f, "mask": mask})]
        ctx.check([np.shape(x) for x in none] == [(0,)] * 3, "number-of-coefficients", lambda: f"{msg} {kind}: {[np.shape(x) for x in none]} with none asked for")
        good = [p for p in range(n_all) if abs(lam[p]) > 1e-6]
        if good:
            n = good[-1] + 1
            want = np.einsum("pab,ab->p", S[:n].conj(), f * W * mask) / lam[:n]
            got = sm.slepian_forward(L, s, f=f, mask=mask, n_coeffs=n)
            ctx.close(got[good], want[good], 1e-9 * (size + np.abs(want[good]).max()), "analysis-region", f"{msg} {kind}")
            # functions that are hardly in the region at all: their quotient is large, and defined
            poor = [p for p in range(n_all) if 1e-11 < abs(lam[p]) <= 1e-6]
            if poor:
                got = sm.slepian_forward(L, s, f=f, mask=mask, n_coeffs=poor[-1] + 1)
                for p in poor:
                    w = (S[p].conj() * f * W * mask).sum() / lam[p]
                    ctx.close(got[p], w, 1e-13 * size * L / abs(lam[p]) + 1e-9 * abs(w), "analysis-poor", f"{msg} {kind} rank {p} of eigenvalue {lam[p]}")
            # a mask may have parts of samples, as one cut between them has
            part = mask * rng.choice([0, 0.25, 0.5, 1], mask.shape)
            want = np.einsum("pab,ab->p", S[:n].conj(), f * W * part) / lam[:n]
            got = sm.slepian_forward(L, s, f=f, mask=part, n_coeffs=n)
            ctx.close(got[good], want[good], 1e-9 * (size + np.abs(want[good]).max()), "analysis-weighted", f"{msg} {kind}")
    # synthesis
    f_p = o.random_flm(rng, L * L)
    want = np.tensordot(f_p[:N], S[:N], axes=1) if N else np.zeros_like(S[0])
    for kind, c in (("full", f_p), ("truncated", f_p[:N]), ("real", f_p.real), ("tiny", f_p * 10.0 ** -rng.integers(8, 14)), ("huge", f_p * 1e9),
                    ("nearly real", f_p.real + 1e-9j * f_p.imag), ("imaginary", 1j * f_p.imag), ("one by one", None)):
        if kind == "one by one":
            k = int(rng.integers(max(N, 1)))
            c = np.zeros(N, complex)
            c[k : k + 1] = f_p[k] * 1e-6
        got = sm.slepian_inverse(c, L, s)
        w = np.tensordot(c[:N], S[:N], axes=1) if N else np.zeros_like(S[0])
        ctx.close(got, w, 1e-10 * (np.abs(c).max(initial=0) + 1e-300) * max(N, 1), "synthesis", f"{msg} {kind}")
    if N and n_all >= N:
        sp = sm.compute_s_p_omega(L, s)
        ctx.close(sp, S[:N], 1e-10, "functions-at-samples", msg)
        back = sm.slepian_forward(L, s, flm=ssht.forward(sm.slepian_inverse(f_p, L, s), L, Method="MWSS"))
        ctx.close(back, f_p[:N], 1e-9 * (1 + np.abs(f_p).max()), "roundtrip", msg)
        # the three analyses agree: exactly known aliasing of the quadrature aside, for one well concentrated function
        top = [p for p in range(N) if lam[p] > 0.95]
        if len(top) and L >= 6:
            p = top[0]
            f = S[p]
            h = sm.slepian_forward(L, s, flm=V[p], n_coeffs=1 + p)[p]
            a = sm.slepian_forward(L, s, f=f, n_coeffs=1 + p)[p]
            b = sm.slepian_forward(L, s, f=f, mask=mask, n_coeffs=1 + p)[p]
            ctx.check(abs(h - 1) < 1e-9, "agreement", lambda: f"{msg} {p}: {h}")
            ctx.count("obs:quadrature within 10%", int(abs(a - 1) < 0.1) + int(abs(b - 1) < 0.1))
            ctx.count("obs:quadrature compared", 2)
        ctx.nontrivial(msg)
        ctx.sample(f"{msg}: N={N}, {n_all} functions synthesised independently")
