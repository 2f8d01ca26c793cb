"""ut_astron: the published polynomials modulo one cycle, and their exact derivatives."""
from __future__ import annotations

from ..calc import diff
from ..lib import *  # noqa

# Explanatory Supplement to the Astronomical Ephemeris (degrees; d = days from 1899-12-31 12:00, D = d/10000):
# moon s, sun h, lunar perigee p, -node np, solar perigee pp
COEF = [["270.434164", "13.1763965268", "-0.0000850", "0.000000039"],
        ["279.696678", "0.9856473354", "0.00002267", "0"],
        ["334.329556", "0.1114040803", "-0.0007739", "-0.00000026"],
        ["-259.183275", "0.0529539222", "-0.0001557", "-0.00000005"],
        ["281.220844", "0.0000470684", "0.0000339", "0.00000007"]]
DAY0 = "693595.5"      # python ordinal of 1899-12-31 12:00


def longitudes(jd):
    """polynomial values, cycles (not reduced)"""
    d = T.lift(jd) - T.pconst(T.Fraction(DAY0))
    D = d / 10000
    out = []
    for c in COEF:
        c = [T.pconst(T.Fraction(x)) for x in c]
        out.append((c[0] + c[1] * d + c[2] * D * D + c[3] * D * D * D) / 360)
    return out


def rates(jd):
    x = T.app("jd_", T.var("i_"))
    r = [T.subst(diff(p, x), {T.the_atom(x): T.lift(jd)}) for p in longitudes(x)]
    return [T.ONE + r[1] - r[0]] + r


def fuzz(v=None):
    rng = np.random.default_rng(4)
    C = np.array([[float(x) for x in r] for r in COEF])
    for k in range(60):
        n = int(rng.integers(1, 6))
        jd = rng.uniform(-2e5, 1.2e6, n)
        if k % 4 == 0:
            jd = np.floor(jd)
        arg = jd if k % 3 else (jd[0] if n == 1 else list(jd))
        a, r = m_astron.ut_astron(arg)
        d = jd - 693595.5
        D = d / 1e4
        P = C @ np.vstack([np.ones(n), d, D * D, D ** 3]) / 360
        dP = C @ np.vstack([np.zeros(n), np.ones(n), 2e-4 * D, 3e-4 * D * D]) / 360
        P = np.vstack([jd % 1 + P[1] - P[0], P])
        dP = np.vstack([1 + dP[1] - dP[0], dP])
        if a.shape != (6, n) or r.shape != (6, n):
            return f"ut_astron({jd.tolist()}): shapes {a.shape}, {r.shape}"
        dif = a - P
        if np.abs(dif - np.round(dif)).max() > 1e-8 or not np.allclose(r, dP, rtol=1e-12, atol=1e-12):
            return f"ut_astron({jd.tolist()}): longitudes off by {np.abs(dif - np.round(dif)).max():.3g} cycles, rates by {np.abs(r - dP).max():.3g}"
    return ("no failing input", 60)


def run(s):
    for form in ("array", "scalar"):
        with s.unit(f"ut_astron[{form}]", replay=fuzz):
            def body():
                it = Interp()
                if form == "array":
                    n = nvar("n", 1)
                    jd = rarr("jd", n)
                    a, r = it.call(m_astron.ut_astron, (jd,))
                    k = gen(n)
                    t = T.app("jd", k)
                else:
                    n, k = 1, 0
                    t = T.var("jd0")
                    a, r = it.call(m_astron.ut_astron, (t,))
                s.used(it)
                a, r = A.as_sarr(a), A.as_sarr(r)
                for nm, x in (("longitudes", a), ("rates", r)):
                    s.true(f"{nm}: shape (6, number of times)", x.ndim == 2 and A.same_dim(x.shape[0], 6) and A.same_dim(x.shape[1], n))
                P = longitudes(t)
                for j, nm in enumerate(("moon", "sun", "perigee", "node", "solar perigee")):
                    s.integer(f"{nm}: published polynomial modulo one cycle", a.get(j + 1, k) - P[j])
                s.integer("lunar time: fraction of the day plus sun minus moon, modulo one cycle",
                          a.get(0, k) - (t - T.floor_(t) + P[1] - P[0]))
                for j, (nm, w) in enumerate(zip(("lunar time", "moon", "sun", "perigee", "node", "solar perigee"), rates(t))):
                    s.eq(f"rate of {nm}: exact derivative", r.get(j, k), w)
                if form == "array":
                    foreign = [x for x in T.atoms_of(tuple(a.get(j, k) for j in range(6)) + tuple(r.get(j, k) for j in range(6)))
                               if x.kind == "app" and x.args[0] == "jd" and x.args[1] != k]
                    s.note("element k depends on time k only", not foreign, str(foreign)[:200])
                s.true("inputs unmodified", not it.frame_violations)
                s.sanity()

            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)
