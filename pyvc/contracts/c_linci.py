"""ut_linci: first-order propagation of the coefficient variances through the parameter formulas."""
from __future__ import annotations

from ..calc import diff
from ..lib import *  # noqa


def params2(Xu, Yu, Xv, Yv):
    """(major, minor, g, theta) in terms of the coefficients, angles in degrees, off the wraps"""
    apr, api = (Xu + Yv) / 2, (Xv - Yu) / 2
    amr, ami = (Xu - Yv) / 2, (Xv + Yu) / 2
    P, M = T.sqrt_(apr * apr + api * api), T.sqrt_(amr * amr + ami * ami)
    ep, em = T.arg_(Cx(apr, api)), T.arg_(Cx(amr, ami))
    d = 180 / T.PI
    return P + M, P - M, (em - ep) / 2 * d, (ep + em) / 2 * d


def fuzz2(v=None):
    rng = np.random.default_rng(3)
    for _ in range(60):
        x = rng.normal(size=4)
        sg = rng.random(4) + 0.1
        s1, s2 = m_conf.ut_linci(x[0] + 1j * x[2], x[1] + 1j * x[3], sg[0] + 1j * sg[2], sg[1] + 1j * sg[3])

        def f(x):
            ap, am = ((x[0] + x[3]) + 1j * (x[2] - x[1])) / 2, ((x[0] - x[3]) + 1j * (x[2] + x[1])) / 2
            return np.array([abs(ap) + abs(am), abs(ap) - abs(am), 0, 0]), ap, am
        h = 1e-6
        J = np.zeros((4, 4))
        _, ap, am = f(x)
        for j in range(4):
            e = np.zeros(4)
            e[j] = h
            a, ap1, am1 = f(x + e)
            b, ap0, am0 = f(x - e)
            J[:2, j] = (a - b)[:2] / (2 * h)
            dp, dm = np.angle(ap1 / ap0) / (2 * h), np.angle(am1 / am0) / (2 * h)
            J[2, j], J[3, j] = np.rad2deg((dm - dp) / 2), np.rad2deg((dp + dm) / 2)
        want = np.sqrt((J ** 2) @ sg ** 2)
        got = np.array([s1.real, s1.imag, s2.real, s2.imag])
        if not np.allclose(got, want, rtol=1e-4):
            return f"ut_linci at {x.tolist()} with deviations {sg.tolist()}: {got.tolist()}, propagation gives {want.tolist()}"
    for _ in range(60):
        x, sg = rng.normal(size=2), rng.random(2) + 0.1
        got = np.array(m_conf.ut_linci(x[0], x[1], sg[0], sg[1]))
        A = np.hypot(*x)
        want = [np.hypot(x[0] * sg[0], x[1] * sg[1]) / A, np.rad2deg(np.hypot(x[1] * sg[0], x[0] * sg[1]) / A ** 2)]
        if not np.allclose(got, want, rtol=1e-7):
            return f"ut_linci at {x.tolist()} with deviations {sg.tolist()}: {got.tolist()}, propagation gives {want}"
    return ("no failing input", 120)


def run(s):
    with s.unit("ut_linci[vector]", replay=fuzz2):
        c = [T.app(n) for n in ("Xu", "Yu", "Xv", "Yv")]
        sg = [T.app("s" + n, nonneg=True) for n in ("Xu", "Yu", "Xv", "Yv")]

        def body():
            it = Interp()
            r1, r2 = it.call(m_conf.ut_linci, (Cx(c[0], c[2]), Cx(c[1], c[3]), Cx(sg[0], sg[2]), Cx(sg[1], sg[3])))
            s.used(it)
            pars = params2(*c)
            got = [T.re_(r1), T.im_(r1), T.re_(r2), T.im_(r2)]
            for nm, p, w in zip(("major axis", "minor axis", "phase", "orientation"), pars, got):
                want = T.ZERO
                for x, q in zip(c, sg):
                    dd = diff(p, x)
                    want = want + dd * dd * q * q
                s.eq(f"{nm}: squared deviation is the gradient propagation", w * w, want)
                s.true(f"{nm}: non-negative", T.cmp_("le", 0, w))
            s.true("inputs unmodified", not it.frame_violations)
            s.sanity()

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
    with s.unit("ut_linci[scalar]", replay=fuzz2):
        X, Y, sX, sY = T.app("X"), T.app("Y"), T.app("sX", nonneg=True), T.app("sY", nonneg=True)

        def body():
            it = Interp()
            r1, r2 = it.call(m_conf.ut_linci, (X, Y, sX, sY))
            s.used(it)
            A = T.sqrt_(X * X + Y * Y)
            g = -T.arg_(Cx(X, -Y)) * 180 / T.PI
            for nm, p, w in (("amplitude", A, r1), ("phase", g, r2)):
                s.true(f"{nm}: real", not isinstance(w, Cx))
                w = T.re_(w)
                want = diff(p, X) * diff(p, X) * sX * sX + diff(p, Y) * diff(p, Y) * sY * sY
                s.eq(f"{nm}: squared deviation is the gradient propagation", w * w, want)
                s.true(f"{nm}: non-negative", T.cmp_("le", 0, w))
            s.sanity()

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
    s.assumptions.append("derivatives are taken off the angle wraps and at non-zero radii (calculus rules of pyvc/calc.py)")
