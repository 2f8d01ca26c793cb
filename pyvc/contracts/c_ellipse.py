"""ut_cs2cep: ranges and losslessness."""
from __future__ import annotations

import numpy as np

from ..lib import *  # noqa


def lemma_product_to_sum(s):
    """L c1 c2 + l s1 s2 etc. in terms of the cosines/sines of the difference and the sum (addition formulas)"""
    L, l, c1, s1, c2, s2 = (T.var(n) for n in ("L", "l", "cth", "sth", "cg", "sg"))
    cm, sm = c1 * c2 + s1 * s2, s1 * c2 - c1 * s2          # cos, sin (th - g)
    cp, sp = c1 * c2 - s1 * s2, s1 * c2 + c1 * s2          # cos, sin (th + g)
    P, M = (L + l) / 2, (L - l) / 2
    # u = Re-part, v = Im-part of rotating sum; Xu = Re(ap)+Re(am), Yu = Im(am)-Im(ap), Xv = Im(ap)+Im(am), Yv = Re(ap)-Re(am)
    s.eq("lemma: Xu", P * cm + M * cp, L * c1 * c2 + l * s1 * s2)
    s.eq("lemma: Yu", M * sp - P * sm, L * c1 * s2 - l * s1 * c2)
    s.eq("lemma: Xv", P * sm + M * sp, L * s1 * c2 - l * c1 * s2)
    s.eq("lemma: Yv", P * cm - M * cp, L * s1 * s2 + l * c1 * c2)


def replay_2d(v):
    return None


def spec_check(coefs, out):
    """concrete form of the contract of ut_cs2cep; a message or None"""
    L, l, th, g = (np.asarray(x, float) for x in out)
    X = [np.asarray(c, float) for c in coefs]
    sc = 1e-9 * (1 + max(np.abs(c).max() for c in X))
    t, p = np.deg2rad(th), np.deg2rad(g)
    if len(X) == 2:
        want = [L * np.cos(p), L * np.sin(p)]
        bad = (l != 0).any() or (th != 0).any()
    else:
        want = [L * np.cos(t) * np.cos(p) + l * np.sin(t) * np.sin(p), L * np.cos(t) * np.sin(p) - l * np.sin(t) * np.cos(p),
                L * np.sin(t) * np.cos(p) - l * np.cos(t) * np.sin(p), L * np.sin(t) * np.sin(p) + l * np.cos(t) * np.cos(p)]
        bad = (L < np.abs(l) - sc).any()
    bad = bad or (L < 0).any() or (th < 0).any() or (th > 180).any() or (g < 0).any() or (g > 360).any()
    for w, x in zip(want, X):
        bad = bad or not np.allclose(w, x, atol=sc, rtol=1e-9)
    if bad:
        return f"ut_cs2cep{tuple(c.tolist() for c in X)} = {[np.asarray(o).tolist() for o in out]} violates its contract"
    return None


def fuzz(ncol, n=400):
    """the contract evaluated on the real function"""
    rng = np.random.default_rng(5)
    for k in range(n):
        m = int(rng.integers(1, 5))
        c = rng.normal(size=(m, ncol)) * 10.0 ** rng.integers(-3, 4)
        if k % 3 == 0:
            c[rng.random(c.shape) < 0.4] = 0.0
        if k % 7 == 0:
            c = np.round(c)
        for form in ((0, 1) if ncol == 4 else (0, 1)):
            args = [c.copy()] if form == 0 else [c[:, i].copy() for i in range(ncol)]
            out = m_ell.ut_cs2cep(*args)
            r = spec_check([c[:, i] for i in range(ncol)], out)
            if r:
                return r
    return None


def ranges(s, L, l, th, g, pre):
    s.true(pre + "axis >= 0", T.cmp_("le", 0, L))
    s.true(pre + "0 <= theta", T.cmp_("le", 0, th))
    s.true(pre + "theta <= 180", T.cmp_("le", th, 180))
    s.true(pre + "0 <= g", T.cmp_("le", 0, g))
    s.true(pre + "g <= 360", T.cmp_("le", g, 360))


def scalar(s, form):
    with s.unit(f"ut_cs2cep[scalar,{form}]", replay=lambda v: fuzz(2) or ("no failing input", 400)):
        n = nvar("n", 1)
        X, Y = rarr("X", n), rarr("Y", n)

        def body():
            it = Interp()
            if form == "matrix":
                M = rarr("M", n, 2)
                r = it.call(m_ell.ut_cs2cep, (M,))
                x, y = (lambda k: T.app("M", k, T.ZERO)), (lambda k: T.app("M", k, T.ONE))
            else:
                r = it.call(m_ell.ut_cs2cep, (X, Y))
                x, y = (lambda k: T.app("X", k)), (lambda k: T.app("Y", k))
            s.used(it)
            L, l, th, g = r
            for a, nm in zip(r, ("Lsmaj", "Lsmin", "theta", "g")):
                s.true(f"{nm}: one entry per constituent", A.same_dim(A.as_sarr(a).shape[0], n))
            k = gen(n)
            Lk, lk, tk, gk = (A.as_sarr(a).get(k) for a in r)
            ranges(s, Lk, lk, tk, gk, "")
            s.eq("minor axis zero", lk, T.ZERO)
            s.eq("orientation zero", tk, T.ZERO)
            s.eq("lossless: A cos g = X", Lk * cosd(gk), x(k))
            s.eq("lossless: A sin g = Y", Lk * sind(gk), y(k))
            s.true("inputs unmodified", not it.frame_violations)
            s.sanity()
            return r

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def vector(s, form):
    with s.unit(f"ut_cs2cep[vector,{form}]", replay=lambda v: fuzz(4) or ("no failing input", 400)):
        n = nvar("n", 1)

        def body():
            it = Interp()
            if form == "matrix":
                M = rarr("M", n, 4)
                r = it.call(m_ell.ut_cs2cep, (M,))
                C = [(lambda j: lambda k: T.app("M", k, T.pconst(j)))(j) for j in range(4)]
            else:
                r = it.call(m_ell.ut_cs2cep, tuple(rarr(x, n) for x in ("Xu", "Yu", "Xv", "Yv")))
                C = [(lambda x: lambda k: T.app(x, k))(x) for x in ("Xu", "Yu", "Xv", "Yv")]
            s.used(it)
            for a, nm in zip(r, ("Lsmaj", "Lsmin", "theta", "g")):
                s.true(f"{nm}: one entry per constituent", A.same_dim(A.as_sarr(a).shape[0], n))
            k = gen(n)
            L, l, th, g = (A.as_sarr(a).get(k) for a in r)
            Xu, Yu, Xv, Yv = (c(k) for c in C)
            ranges(s, L, l, th, g, "")
            s.true("|minor| <= major", T.cmp_("le", l, L))
            s.true("-minor <= major", T.cmp_("le", -l, L))
            apr, api = (Xu + Yv) / 2, (Xv - Yu) / 2
            amr, ami = (Xu - Yv) / 2, (Xv + Yu) / 2
            s.eq("anticlockwise real part", (L + l) / 2 * cosd(th - g), apr)
            s.eq("anticlockwise imaginary part", (L + l) / 2 * sind(th - g), api)
            s.eq("clockwise real part", (L - l) / 2 * cosd(th + g), amr)
            s.eq("clockwise imaginary part", (L - l) / 2 * sind(th + g), ami)
            # the four coefficients from the two rotary ones
            s.eq("Xu = Re(ap)+Re(am)", apr + amr, Xu)
            s.eq("Yu = Im(am)-Im(ap)", ami - api, Yu)
            s.eq("Xv = Im(ap)+Im(am)", api + ami, Xv)
            s.eq("Yv = Re(ap)-Re(am)", apr - amr, Yv)
            s.true("inputs unmodified", not it.frame_violations)
            s.sanity()
            return r

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def run(s):
    with s.unit("lemma product to sum"):
        lemma_product_to_sum(s)
    for f in ("columns", "matrix"):
        scalar(s, f)
        vector(s, f)
    s.assumptions.append("trigonometry: e^{i(a+b)} = e^{ia} e^{ib}, |z| e^{i arg z} = z, period 2 pi (built into the normal form)")
