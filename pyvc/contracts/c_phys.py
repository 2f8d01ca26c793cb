"""How a solution transforms with the data: the same function run twice, on the data and on the transformed data, and the
two results compared; a caller is checked against the transformation its callees' units establish.

The least-squares step is linear in the data by the lemmas ls_scale, ls_shift, ls_add and ls_conj of lean/Lemmas.lean (the
model has full rank, as numpy.linalg.lstsq's result is otherwise not determined by the normal equations); their hypotheses
about the model (a column of ones, columns in conjugate pairs) are obligations here."""
from __future__ import annotations

from ..lib import *  # noqa
from . import c_conf, c_diag, c_solve
from .c_solve import Bunch, groups, nN

C = lambda: T.var("c", nonneg=True)


def positive():
    b = T.cmp_("lt", 0, C())
    if not isinstance(b, bool):
        ENGINE.push(b)


def real(z):
    return Cx(T.lift(z), T.ZERO)


class Fit(c_solve.World):
    """a run of _solv1 on the data x' = f(x), with the coefficients m' the lemmas give for them"""

    def __init__(self, s, tw, trend, shape, fx=None, fm=None):
        super().__init__(s, tw, trend, "ols", shape)
        self.fx, self.fm = fx, fm
        if fx is not None:
            self.u = SArr((self.nt,), lambda idx: fx(super(Fit, self).x(T.lift(idx[0]))).re, "f", owner="input")
            if tw:
                self.v = SArr((self.nt,), lambda idx: fx(super(Fit, self).x(T.lift(idx[0]))).im, "f", owner="input")

    def m(self, c):
        z = super().m(c)
        return self.fm(c, z) if self.fm is not None else z

    def c_lstsq(self, it, a, b, rcond):
        r = super().c_lstsq(it, a, b, rcond)
        s, i = self.s, gen(self.nt, "i")
        x = super().x(i)
        s.eq("data of the fit", Cx.of(T.lift(self.fit[1].get(i))), self.fx(x) if self.fx is not None else x)
        return r


def results(w):
    """name -> (value, generic index or None) of what a solution is made of"""
    o, c = w.out, w.coef
    out = {}
    for q, X in enumerate(w.cep):
        for nm, a in zip(("Xu", "Yu", "Xv", "Yv"), X):
            out[f"{nm} of the {'inferred' if q else 'fitted'} constituents"] = (a, w)
    return out


def mean(w):
    o = w.out
    return Cx(T.lift(o["umean"]), T.lift(o["vmean"])) if w.tw else real(o["mean"])


def slope(w):
    o = w.out
    return Cx(T.lift(o["uslope"]), T.lift(o["vslope"])) if w.tw else real(o["slope"])


def coefs(w, q, k):
    """complex (or, for a scalar series, the real) coefficients Xu + i Xv, Yu + i Yv of entry k"""
    X = [T.lift(a.get(k)) for a in w.cep[q]]
    return (Cx(X[0], X[2]), Cx(X[1], X[3])) if w.tw else (real(X[0]), real(X[1]))


def entries(w):
    """(group of ut_cs2cep calls, entry)"""
    n = w.coef.nNR
    out = [("a constituent", 0, gen(n, "k"))]
    for kind, g, j, e in c_solve.members(w.shape):
        if kind == "R":
            out.append((f"reference {g}", 0, A.dim(T.lift(n) + g)))
        else:
            out.append((f"inferred {g},{j}", 1, e))
    return out


def handed(w, w0, f, s, what):
    """residual, fitted values and data given to the interval estimate"""
    i = gen(w.nt, "i")
    for k, nm in (("e", "residuals"), ("xmod", "fitted values"), ("xraw", "data")):
        g = f if k != "e" else (lambda z: f(z) - f(Cx(T.ZERO, T.ZERO)))
        s.eq(f"{what}: {nm} given to the interval estimate", Cx.of(T.lift(w.conf[k].get(i))), g(Cx.of(T.lift(w0.conf[k].get(i)))))
    for k, nm in (("W", "weights"), ("t", "times")):
        s.eq(f"{what}: {nm} unchanged", T.lift(A.as_sarr(w.conf[k]).get(i)), T.lift(A.as_sarr(w0.conf[k]).get(i)))
    s.eq(f"{what}: design matrix unchanged", Cx.of(T.lift(w.conf["B"].get(i, A.dim(0)))), Cx.of(T.lift(w0.conf["B"].get(i, A.dim(0)))))
    s.eq(f"{what}: effective record length unchanged", w.conf["elor"], w0.conf["elor"])


def fit_units(s):
    for tw in (False, True):
        for trend in (False, True):
            for shape in (None, ("n",)):
                lab = ",".join(["vector" if tw else "scalar", "trend" if trend else "no trend", "inference" if shape else "no inference"])

                def base():
                    w = Fit(s, tw, trend, shape)
                    w.run()
                    return w

                def scale():
                    positive()
                    c = C()
                    w0 = base()
                    w = Fit(s, tw, trend, shape, lambda z: z * real(c), lambda j, z: z * real(c))
                    w.run()
                    for nm, q, k in entries(w):
                        for a, b in zip(coefs(w, q, k), coefs(w0, q, k)):
                            s.eq(f"times a factor: coefficients of {nm}", a, b * real(c))
                    s.eq("times a factor: mean", mean(w), mean(w0) * real(c))
                    if trend:
                        s.eq("times a factor: slope", slope(w), slope(w0) * real(c))
                    handed(w, w0, lambda z: z * real(c), s, "times a factor")
                    s.sanity()

                def shift():
                    a = Cx(T.var("da"), T.var("db") if tw else T.ZERO)
                    w0 = base()
                    col = T.lift(w0.nc) - (2 if trend else 1)
                    i = gen(w0.nt, "i")
                    s.eq("plus a constant: the model has a column of ones", Cx.of(T.lift(w0.fit[0].get(i, A.dim(col)))), Cx(T.ONE, T.ZERO))

                    def fm(j, z):
                        c = T.eq_(T.lift(j), col)
                        b = c if isinstance(c, bool) else ENGINE.resolve(c)
                        if b is None:
                            return Cx(T.ite(c, z.re + a.re, z.re), T.ite(c, z.im + a.im, z.im))
                        return z + a if b else z
                    w = Fit(s, tw, trend, shape, lambda z: z + a, fm)
                    w.run()
                    for nm, q, k in entries(w):
                        for x, y in zip(coefs(w, q, k), coefs(w0, q, k)):
                            s.eq(f"plus a constant: coefficients of {nm}", x, y)
                    s.eq("plus a constant: mean", mean(w), mean(w0) + a)
                    if trend:
                        s.eq("plus a constant: slope", slope(w), slope(w0))
                    k = gen(w.nc, "k")
                    s.sanity()

                def rotation():
                    r = Cx(*T.cis(T.var("phi")))
                    w0 = base()
                    w = Fit(s, tw, trend, shape, lambda z: z * r, lambda j, z: z * r)
                    w.run()
                    for nm, q, k in entries(w):
                        for x, y in zip(coefs(w, q, k), coefs(w0, q, k)):
                            s.eq(f"rotated: coefficients of {nm}", x, y * r)
                    s.eq("rotated: mean", mean(w), mean(w0) * r)
                    if trend:
                        s.eq("rotated: slope", slope(w), slope(w0) * r)
                    handed(w, w0, lambda z: z * r, s, "rotated")
                    s.sanity()
                for nm, f in (("scaled", scale), ("shifted", shift)) + ((("rotated", rotation),) if tw else ()):
                    with s.unit(f"_solv1 {nm}[{lab}]", replay=fuzz, seconds=60):
                        for facts, (kind, r) in s.paths(f):
                            if kind == "exc":
                                s.true(f"no exception ({r})", False)
    for trend in (False, True):
        with s.unit(f"_solv1 by components[{'trend' if trend else 'no trend'}]", replay=fuzz, seconds=60):
            for facts, (kind, r) in s.paths(lambda: components(s, trend)):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


def components(s, trend):
    n = nN()

    def conjpair(nm):
        """coefficients of a real series: those of the negative frequencies are conjugates, mean and trend are real (ls_conj)"""
        def f(c):
            c = T.lift(c)
            el = lambda j: Cx(T.app(nm + "_re", j), T.app(nm + "_im", j))
            for cond, z in ((T.cmp_("lt", c, n), lambda: el(c)), (T.cmp_("lt", c, 2 * n), lambda: el(c - n).conj())):
                b = cond if isinstance(cond, bool) else ENGINE.resolve(cond)
                if b is None:
                    x, y, z0 = el(c), el(c - n).conj(), Cx(T.app(nm + "_re", c), T.ZERO)
                    two = T.cmp_("lt", c, 2 * n)
                    one = T.cmp_("lt", c, n)
                    return Cx(T.ite(one, x.re, T.ite(two, y.re, z0.re)), T.ite(one, x.im, T.ite(two, y.im, z0.im)))
                if b:
                    return z()
            return Cx(T.app(nm + "_re", c), T.ZERO)
        return f
    mu, mv = conjpair("mu"), conjpair("mv")
    I = Cx(T.ZERO, T.ONE)
    w = Fit(s, True, trend, None, None, lambda j, z: mu(j) + I * mv(j))
    w.run()
    i, k = gen(w.nt, "i"), gen(n, "k")
    B = w.fit[0]
    el = lambda j: Cx.of(T.lift(B.get(i, A.dim(j))))
    s.eq("the columns of the model come in conjugate pairs", el(n + k), el(k).conj())
    s.eq("the last column is real", el(T.lift(w.nc) - 1).im, T.ZERO)
    s.eq("the first column after the constituents is real", el(2 * n).im, T.ZERO)
    for nm, part, mm in (("u", "re", mu), ("v", "im", mv)):
        w1 = Fit(s, False, trend, None, None if nm == "u" else (lambda z: real(T.app("v", T.the_atom(z.re).args[1]))), lambda j, z: mm(j))
        w1.run()
        s.eq(f"{nm}: the same design matrix", Cx.of(T.lift(w1.fit[0].get(i, A.dim(k)))), el(k))
        for nm2, a, b in zip(("X", "Y"), coefs(w, 0, k), coefs(w1, 0, k)):
            s.eq(f"{nm2} of the {nm} component is that of the scalar solution", getattr(a, part), b.re)
        s.eq(f"mean of the {nm} component is that of the scalar solution", getattr(mean(w), part), mean(w1).re)
        if trend:
            s.eq(f"slope of the {nm} component is that of the scalar solution", getattr(slope(w), part), slope(w1).re)
    s.sanity()


# ---------------------------------------------------------------- ellipse parameters
def cep_units(s):
    for tw in (False, True):
        names = ("Xu", "Yu", "Xv", "Yv")[: 4 if tw else 2]

        def call(f):
            it = Interp()
            n = nvar("n", 1)
            r = it.call(m_ell.ut_cs2cep, tuple(SArr((n,), lambda idx, q=q: f(T.lift(idx[0]))[q], "f", owner="input") for q in range(len(names))))
            s.used(it)
            k = T.fresh("k", "I", True)
            ENGINE.push(T.cmp_("lt", k, n))
            return [A.as_sarr(a) for a in r], n
        plain = lambda k: [T.app(x, k) for x in names]

        def scale():
            positive()
            r0, n = call(plain)
            r1, _ = call(lambda k: [C() * x for x in plain(k)])
            k = gen(n)
            for nm, a, b, f in zip(("major axis", "minor axis", "orientation", "phase"), r1, r0, (C(), C(), T.ONE, T.ONE)):
                s.eq(f"times a factor: {nm}", a.get(k), b.get(k) * f)
            s.sanity()

        def rotation():
            c, sn = T.cis(T.var("phi"))
            r0, n = call(plain)

            def rot(k):
                Xu, Yu, Xv, Yv = plain(k)
                return [Xu * c - Xv * sn, Yu * c - Yv * sn, Xu * sn + Xv * c, Yu * sn + Yv * c]
            r1, _ = call(rot)
            k = gen(n)
            (L0, l0, t0, g0), (L1, l1, t1, g1) = ([T.lift(a.get(k)) for a in r] for r in (r0, r1))
            s.eq("rotated: major axis", L1, L0)
            s.eq("rotated: minor axis", l1, l0)
            e = lambda x: Cx(*T.cis(x * T.PI / 180))
            turn = Cx(c, sn)
            p = Cx((L0 + l0) / 2, T.ZERO)
            m = Cx((L0 - l0) / 2, T.ZERO)
            s.eq("rotated: orientation minus phase", p * e(t1 - g1), p * e(t0 - g0) * turn)
            s.eq("rotated: orientation plus phase", m * e(t1 + g1), m * e(t0 + g0) * turn)
            # of the product: twice the orientation turns by twice the angle, that is the orientation modulo 180
            s.eq("rotated: orientation modulo 180", p * m * e(t1 - g1) * e(t1 + g1), p * m * e(2 * t0) * turn * turn)
            s.sanity()
        for nm, f in (("scaled", scale),) + ((("rotated", rotation),) if tw else ()):
            with s.unit(f"ut_cs2cep {nm}[{'vector' if tw else 'scalar'}]", replay=fuzz, seconds=60):
                for facts, (kind, r) in s.paths(f):
                    if kind == "exc":
                        s.true(f"no exception ({r})", False)


def linci_units(s):
    for tw in (False, True):
        with s.unit(f"ut_linci scaled[{'vector' if tw else 'scalar'}]", replay=fuzz, seconds=60):
            def body():
                positive()
                c = C()
                if tw:
                    a = [Cx(T.app(x), T.app(y)) for x, y in (("Xu", "Xv"), ("Yu", "Yv"))] + \
                        [Cx(T.app("s" + x, nonneg=True), T.app("s" + y, nonneg=True)) for x, y in (("Xu", "Xv"), ("Yu", "Yv"))]
                else:
                    a = [T.app("X"), T.app("Y"), T.app("sX", nonneg=True), T.app("sY", nonneg=True)]
                it = Interp()
                x0 = it.call(m_conf.ut_linci, tuple(a))
                x1 = it.call(m_conf.ut_linci, tuple(z * real(c) if tw else z * c for z in a))
                s.used(it)
                for nm, p, q, f in (("axes", x1[0], x0[0], c), ("angles", x1[1], x0[1], T.ONE)):
                    p, q = Cx.of(T.lift(p)), Cx.of(T.lift(q))
                    for part in ("re", "im"):
                        s.eq(f"times a factor: squared deviation of the {nm} ({part})", getattr(p, part) ** 2, getattr(q, part) ** 2 * f * f)
                        s.true(f"times a factor: deviation of the {nm} not negative ({part})", T.cmp_("le", 0, getattr(p, part)))
                s.sanity()
            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


# ---------------------------------------------------------------- intervals
class Scaled(c_conf.World):
    """_confidence on scaled data; the callees' results scaled as their units establish (ut_linci here, the band averages by
    C15's unit of the periodograms)"""

    def __init__(self, s, tw, white, groups=None):
        super().__init__(s, tw, white, True, groups)
        c = C()
        mul = lambda a: A.ew(lambda z: T.lift(z) * (real(c) if a.dt == "c" else c), a)

        def own(a):
            b = mul(A.as_sarr(a))
            b.owner = "input"
            return b
        for k in ("xraw", "xmod", "e"):
            setattr(self, k, own(getattr(self, k)))
        self.m = own(self.m)
        self.X = {k: own(a) for k, a in self.X.items()}
        for k in ("Lsmaj", "Lsmin", "A"):
            if k in self.coef:
                self.coef[k] = own(self.coef[k])

    def raw(self):
        r = super().raw()
        c2 = C() * C()
        return {k: (lambda i, j, f=f: f(i, j) * Cx(c2, T.ZERO)) for k, f in r.items()}

    def cut(self, v):
        n = set(self.cuts)
        super().cut(v)
        for k in set(self.cuts) - n:
            f = {"C": c_conf.herm, "P": c_conf.symm}[k]
            c2 = Cx(C() * C(), T.ZERO)
            self.cuts[k] = g = lambda i, j, f=f: f(i, j) * c2
            v._fn = lambda idx: g(idx[0], idx[1])

    def c_band(self, it, *a):
        r = super().c_band(it, *a)
        return tuple(None if x is None else A.ew(lambda z: T.lift(z) * C() * C(), x) for x in r)

    def c_linci(self, it, X, Y, sX, sY):
        c = C()
        d = lambda z: Cx(z.re / c, z.im / c) if isinstance(z, Cx) else T.lift(z) / c
        sq = lambda z: Cx(T.sqrt_(z.re ** 2 / (c * c)), T.sqrt_(z.im ** 2 / (c * c))) if isinstance(z, Cx) else T.sqrt_(T.lift(z) ** 2 / (c * c))
        r1, r2 = super().c_linci(it, d(X), d(Y), sq(sX), sq(sY))
        return (r1 * real(c) if isinstance(r1, Cx) else r1 * c), r2


def conf_units(s):
    for tw in (False, True):
        for white in (True, False):
            for groups in (None, ("n",)):
                with s.unit(f"_confidence scaled[{'vector' if tw else 'scalar'},{'white' if white else 'coloured'},{'inference' if groups else 'no inference'}]",
                            replay=fuzz, samplers=c_conf.SAMPLE, seconds=90):
                    def body():
                        positive()
                        w = Scaled(s, tw, white, groups)
                        o = w.run()
                        if len(w.cuts) < 2:
                            raise Unsupported("the covariance of the coefficients was not recognised")

                        def variances(case, pos):
                            var = {k: w.covariance(case)[k, k] / (C() * C()) for k in w.X}
                            if not white:
                                var = {k: T.app("P" + k[1] * 2, T.lift(pos), nonneg=True) * var[k] / (var["X" + k[1]] + var["Y" + k[1]]) for k in var}
                            return var
                        p = gen(c_conf.nNR(), "c")
                        cases = [("", p, c_conf.interval({k: T.app(k, T.lift(p)) for k in w.X}, variances(p, p), tw))]
                        for k, ni in enumerate(w.groups):
                            ref = A.dim(c_conf.nNR() + k)
                            x = {q: T.app(q, T.lift(ref)) if q in w.X else T.ZERO for q in c_conf.L4}
                            var = variances(("R", k), ref)
                            cases.append((" of a reference", ref, c_conf.interval(x, var, tw)))
                            j = gen(ni, "j")
                            D = [c_solve.Rsym(sg, k, j, tw) for sg in "pm"]
                            cases.append((" of an inferred constituent", A.dim(c_conf.nNR() + w.coef.nR + j), c_conf.by_ratios(x, var, D, tw)))
                        for what, pos, want in cases:
                            for k, z in want.items():
                                f = C() if k in ("A_ci", "Lsmaj_ci", "Lsmin_ci") else T.ONE
                                s.eq(f"times a factor: {k}{what}", A.as_sarr(o[k]).get(pos), z * f)
                        s.sanity()
                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)


def diag_units(s):
    for tw in (False, True):
        with s.unit(f"_PE and _SNR scaled[{'vector' if tw else 'scalar'}]", replay=fuzz, seconds=60):
            def body():
                positive()
                it = Interp()
                n = nvar("n", 1)
                c0, c1 = c_diag.mkcoef(tw, n), c_diag.mkcoef(tw, n)
                for k in ("A", "A_ci", "Lsmaj", "Lsmin", "Lsmaj_ci", "Lsmin_ci"):
                    if k in c1:
                        c1[k] = A.ew(lambda z: T.lift(z) * C(), c1[k])
                k = gen(n)
                for nm, f in (("percent energy", m_diag._PE), ("signal-to-noise ratio", m_diag._SNR)):
                    a, b = (A.as_sarr(it.call(f, (c,))) for c in (c1, c0))
                    s.eq(f"times a factor: {nm} unchanged", a.get(k), b.get(k))
                s.used(it)
                s.sanity()
            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


_FUZZ = []


def fuzz(v=None):
    """the transformations tried on the whole of solve"""
    if _FUZZ:
        return _FUZZ[0]
    rng = np.random.default_rng(11)
    bad = None
    for k in range(16):
        tw, trend, white = bool(k % 2), bool(k // 2 % 2), bool(k // 4 % 2)
        n = int(rng.integers(400, 600))
        t = 730000 + np.sort(rng.uniform(0, 30, n)) if k % 3 else 730000 + np.arange(n) / 24.0
        names = ["M2", "S2", "K1", "O1"][: int(rng.integers(2, 5))]
        mk = lambda: sum(rng.normal() * np.cos(2 * np.pi * f * 24 * t + rng.uniform(0, 6)) for f in (0.0805, 0.0833, 0.0418)) + 0.3 * rng.normal(size=n) + 1.5
        u, w = mk(), mk()
        infer = None if k % 5 or tw else m_util.Bunch(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.3], phase_offsets=[10.0])
        if infer is not None and "K1" not in names:
            names = names + ["K1"]
        go = lambda *d, inf=infer: m_solve.solve(t, *d, lat=40.0, constit=names, method="ols", trend=trend, white=white, infer=inf, nodal=False, verbose=False,
                                                 conf_int="linear", order_constit="frequency", epoch="python")
        try:
            c0 = go(u, w) if tw else go(u)
            c, da = float(rng.uniform(0.1, 30)), float(rng.normal())
            c1 = go(c * u, c * w) if tw else go(c * u)
            c2 = go(u + da, w - da) if tw else go(u + da)
            keys = dict(Lsmaj=c, Lsmin=c, theta=1, g=1, umean=c, vmean=c, uslope=c, vslope=c, Lsmaj_ci=c, Lsmin_ci=c, g_ci=1, theta_ci=1) if tw else \
                dict(A=c, g=1, mean=c, slope=c, A_ci=c, g_ci=1)

            def off(x, y, ang=False):
                x, y = np.asarray(x, float), np.asarray(y, float)
                d = (x - y + 180) % 360 - 180 if ang else x - y
                return np.abs(d).max() / (1e-6 * (1 + np.abs(y).max()) + 1e-12) > 1
            for q, f in keys.items():
                if q not in c0:
                    continue
                ang = q in ("g", "theta")
                if off(c1[q], f * np.asarray(c0[q]), ang):
                    bad = f"data times {c}: {q} {np.asarray(c1[q]).tolist()} instead of {f} times {np.asarray(c0[q]).tolist()}"
                if not q.endswith("mean") and not q.endswith("_ci") and off(c2[q], c0[q], ang):
                    bad = bad or f"data plus {da}: {q} {np.asarray(c2[q]).tolist()} instead of {np.asarray(c0[q]).tolist()}"
            for q in ("PE", "SNR"):
                if "diagn" in c0 and off(c1["diagn"][q], c0["diagn"][q]):
                    bad = bad or f"data times {c}: {q} {c1['diagn'][q].tolist()} instead of {c0['diagn'][q].tolist()}"
            if tw:
                ph = float(rng.uniform(0, 360))
                z = (u + 1j * w) * np.exp(1j * np.deg2rad(ph))
                c3 = go(z.real, z.imag)
                if off(c3["Lsmaj"], c0["Lsmaj"]) or off(c3["Lsmin"], c0["Lsmin"]) or np.abs(np.angle(np.exp(2j * np.deg2rad(c3["theta"] - c0["theta"] - ph)))).max() > 1e-5:
                    bad = bad or f"rotated by {ph}: axes {c3['Lsmaj'].tolist()}, orientations {c3['theta'].tolist()} from {c0['Lsmaj'].tolist()}, {c0['theta'].tolist()}"
                for nm, d, part in (("u", u, 0), ("v", w, 1)):
                    c4 = go(d)
                    (a, g), L, l = (np.deg2rad(c0[q]) for q in ("theta", "g")), c0["Lsmaj"], c0["Lsmin"]
                    cs = (np.cos(a), np.sin(a))
                    zz = L * cs[part] * np.exp(1j * g) + (1, -1)[part] * l * cs[1 - part] * np.exp(1j * g) * -1j
                    z4 = c4["A"] * np.exp(1j * np.deg2rad(c4["g"]))
                    if np.abs(zz - z4).max() > 1e-5 or abs(c4["mean"] - c0[nm + "mean"]) > 1e-6:
                        bad = bad or f"{nm} component {zz.tolist()} instead of the scalar solution's {z4.tolist()}"
        except Exception as e:
            bad = bad or f"{type(e).__name__}: {e} for a {'vector' if tw else 'scalar'} record of {n} samples"
        if bad:
            break
    _FUZZ.append(bad or ("no failing input", 16))
    return _FUZZ[0]


def run(s):
    s.lemma("ls_scale", "ls_shift", "ls_add", "ls_conj", "normal_equations_unique")
    fit_units(s)
    cep_units(s)
    linci_units(s)
    conf_units(s)
    diag_units(s)
    s.assumptions.append("the model has full rank; numpy.linalg.lstsq returns the solution of the normal equations")
