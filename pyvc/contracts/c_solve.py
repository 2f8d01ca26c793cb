"""_solv1: the design matrix, the fit, and the parameters derived from it."""
from __future__ import annotations

from ..lib import *  # noqa
from .c_recon import FLAGNAMES, Ecx

Bunch = m_util.Bunch
nN = lambda: T.var("nNR", "I", True)


def groups(shape):
    """numbers of inferred constituents per reference; "n" stands for any number"""
    return [] if shape is None else [A.dim(T.var(f"nI{k}", "I", True)) if x == "n" else x for k, x in enumerate(shape)]


def total(gs):
    if all(isinstance(x, int) for x in gs):
        return sum(gs)
    return sum((T.lift(x) for x in gs), T.ZERO)


def ratio_el(nm, j):
    return Cx(T.app(nm + "_re", T.lift(j)), T.app(nm + "_im", T.lift(j)))


def Rsym(sign, k, j, twodim):
    """prescribed complex ratio of inferred constituent j of reference k"""
    z = ratio_el(f"Rp{k}", j)
    if sign == "p":
        return z
    return ratio_el(f"Rm{k}", j) if twodim else z.conj()


def ratios_of(sign, k, ni, twodim):
    return SArr((ni,), lambda idx: Rsym(sign, k, idx[0], twodim), "c", owner="input")


def selection(shape, twodim):
    """what the contract of ut_cnstitsel gives: NR of symbolic length, the given reference groups, coef with aligned lists"""
    n = nN()
    gs = groups(shape)
    cnstit = Bunch(NR=Bunch(frq=rarr("frqN", n), lind=rarr("lindN", n, sort="I", nonneg=True), name=rarr("nameN", n)), R=[])
    for k, ni in enumerate(gs):
        f, l = T.var(f"frqR{k}"), T.var(f"lindR{k}", "I", True)
        ref = Bunch(name=f"R{k}", frq=f, lind=l, nI=ni)
        ref.I = Bunch(Rp=ratios_of("p", k, ni, twodim), Rm=ratios_of("m", k, ni, twodim), name=rarr(f"nameI{k}", ni),
                      lind=rarr(f"lindI{k}", ni, sort="I", nonneg=True), frq=rarr(f"frqI{k}", ni))
        cnstit.R.append(ref)
    coef = Bunch(name="names", nNR=n, nR=len(gs), nI=total(gs))
    coef.aux = Bunch(reftime=T.var("tref"), frq="all frequencies", lind="all indices")
    return cnstit, coef


def members(shape):
    """(kind, group, member, entry) of the references and of every inferred constituent (entry: its place among the inferred);
    for a group of any number, a generic member"""
    gs = groups(shape)
    out = [("R", k, None, k) for k in range(len(gs))]
    off = T.ZERO
    for k, ni in enumerate(gs):
        for j in ([gen(ni, f"j{k}")] if not isinstance(ni, int) else range(ni)):
            out.append(("I", k, j, A.dim(off + T.lift(j))))
        off = off + T.lift(ni)
    return out


def over_members(ni, f):
    """sum over the members of a group"""
    if not isinstance(ni, int):
        return T.sum_(ni, lambda j: f(j))
    z = f(0)
    for j in range(1, ni):
        z = z + f(j)
    return z


def Eref(t, k):
    return Ecx(t, T.var(f"frqR{k}"), T.var(f"lindR{k}", "I", True))


def Einf(t, k, j):
    return Ecx(t, T.app(f"frqI{k}", T.lift(j)), T.app(f"lindI{k}", T.lift(j), sort="I", nonneg=True))


class World:
    """one symbolic run of _solv1 with its callees replaced by their contracts"""

    def __init__(self, s, tw, trend, method, shape, approx=False, conf="linear"):
        self.s, self.tw, self.trend, self.method, self.shape, self.approx = s, tw, trend, method, shape, approx
        self.nt = nvar("nt", 2)
        n = nN()
        for x in groups(shape):
            if not isinstance(x, int):
                b = T.cmp_("le", 1, T.lift(x))
                if not isinstance(b, bool):
                    ENGINE.push(b)
        if shape is None:
            b = T.cmp_("le", 1, n)
            if not isinstance(b, bool):
                ENGINE.push(b)
        ENGINE.push(T.cmp_("lt", 0, T.var("lor")))
        self.t = rarr("t", self.nt)
        self.u = rarr("u", self.nt)
        self.v = rarr("v", self.nt) if tw else None
        self.infer = None if shape is None else Bunch(approximate=approx)
        self.opt = Bunch(twodim=tw, notrend=not trend, prefilt=["prefilt"], RunTimeDisp=False, rmin=T.var("rmin"), cnstit=["list"],
                         infer=self.infer, conf_int=conf != "none", linci=conf == "linear", nodiagn=0 if conf != "none" else 1,
                         newopts=Bunch(method=method, robust_kw={"weight_function": "huber", "tune": T.var("tune"), "maxit": ["maxit"]}), ordercnstit="PE", white=False, equi=True)
        for i, k in enumerate(FLAGNAMES):
            self.opt[k] = ["flag", i]
        self.cnstit, self.coef = selection(shape, tw)
        self.cep = []
        self.fit = None
        self.conf = None
        self.sel = None
        self.calls = []
        self.nc = 2 * (self.coef.nNR + self.coef.nR) + (2 if trend else 1)
        it = Interp(contracts={
            "utide._solve._slvinit": self.c_slvinit, "utide.constituent_selection.ut_cnstitsel": self.c_sel,
            "utide.harmonics.ut_E": self.c_ut_E, "utide.robustfit.robustfit": self.c_robust,
            "utide.ellipse_params.ut_cs2cep": self.c_cep, "utide.confidence._confidence": self.c_conf,
            "utide.diagnostics.ut_diagn": lambda it, c: (self.calls.append("diagn"), c)[1],
            "utide.diagnostics._PE": lambda it, c: (self.calls.append("PE"), "PE values")[1],
            "utide.diagnostics._SNR": lambda it, c: (self.calls.append("SNR"), "SNR values")[1],
            "utide._solve._reorder": lambda it, c, o: (self.calls.append("reorder"), c)[1]})
        it.lstsq_hook = self.c_lstsq
        self.it = it

    # ---- contracts of the callees
    def c_slvinit(self, it, tin, uin, vin, lat, **opts):
        self.s.note("record and latitude handed on", tin == "tin" and uin == "uin" and vin == ("vin" if self.tw else None))
        self.s.eq("latitude handed on", lat, T.var("lat"))
        return rarr("tgood", self.nt), self.t, self.u, self.v, T.var("tref"), T.var("lor"), T.var("elor"), self.opt

    def c_sel(self, it, tref, minres, incnstit, infer):
        s = self.s
        s.eq("constituents chosen at the reference time", tref, T.var("tref"))
        s.eq("resolution criterion: Rayleigh number over the record length in hours", minres, T.var("rmin") / (24 * T.var("lor")))
        s.note("the constituent list and the inference options are handed on", incnstit is self.opt["cnstit"] and infer is self.infer)
        return self.cnstit, self.coef

    def c_ut_E(self, it, t, tref, frq, lind, lat, ngflgs, prefilt):
        s = self.s
        s.eq("basis evaluated with the reference time", tref, T.var("tref"))
        s.eq("basis evaluated at the latitude given", lat, T.var("lat"))
        s.true("basis evaluated with the options given",
               len(ngflgs) == 4 and all(a is self.opt[k] for a, k in zip(ngflgs, FLAGNAMES)))
        from .. import npmodel
        t, frq, lind = (npmodel.m_atleast_1d(it, npmodel.arr(x) if isinstance(x, list) else x) for x in (t, frq, lind))
        t, frq, lind = A.as_sarr(t), A.as_sarr(frq), A.as_sarr(lind)
        if not A.same_dim(frq.shape[0], lind.shape[0]):
            raise Unsupported("lengths of frq and lind")
        return SArr((t.shape[0], frq.shape[0]), lambda idx: Ecx(t.get(idx[0]), frq.get(idx[1]), lind.get(idx[1])), "c")

    def m(self, c):
        return Cx(T.app("m_re", c), T.app("m_im", c))

    def marr(self):
        return SArr((A.dim(T.lift(self.nc)),), lambda idx: self.m(T.lift(idx[0])), "c")

    def c_lstsq(self, it, a, b, rcond):
        self.s.true("least squares only for the ordinary method", self.method == "ols")
        self.fit = (A.as_sarr(a), A.as_sarr(b))
        return self.marr(), rarr("resid", 1), T.var("rank", "I", True), rarr("sv", 1)

    def c_robust(self, it, X, y, **kw):
        self.s.true("robust fit only for the robust method, with the keywords given", self.method == "robust" and kw == self.opt.newopts.robust_kw)
        self.fit = (A.as_sarr(X), A.as_sarr(y))
        return Bunch(b=self.marr(), w=rarr("w", self.nt, nonneg=True), s="sigma")

    def c_cep(self, it, Xu, Yu, Xv=None, Yv=None):
        q = len(self.cep)
        Xu, Yu = A.as_sarr(Xu), A.as_sarr(Yu)
        two = Xv is not None and not (isinstance(Xv, list) and not Xv)
        self.s.true("ellipse parameters for a vector solution only", two == self.tw)
        n = Xu.shape[0]
        self.cep.append((Xu, Yu) + ((A.as_sarr(Xv), A.as_sarr(Yv)) if two else ()))
        outs = [rarr(f"{x}{q}", n, owner="cep") for x in ("L", "l", "th", "g")]
        if not two:
            outs[1] = SArr((n,), lambda idx: T.ZERO, "f")
            outs[2] = SArr((n,), lambda idx: T.ZERO, "f")
        return tuple(outs)

    def c_conf(self, it, coef, cnstit, opt, t, e, tin, elor, xraw, xmod, W, m, B, Xu, Yu, Xv, Yv):
        self.conf = dict(e=A.as_sarr(e), xraw=A.as_sarr(xraw), xmod=A.as_sarr(xmod), W=W, m=m, B=A.as_sarr(B), t=A.as_sarr(t), tin=A.as_sarr(tin),
                         elor=elor, same=(coef is self.coef and cnstit is self.cnstit and opt is self.opt), X=(Xu, Yu, Xv, Yv))
        return coef

    def run(self):
        self.out = self.it.call(m_solve._solv1, ("tin", "uin", "vin" if self.tw else None, T.var("lat")), {"epoch": None})
        self.s.used(self.it)
        return self.out

    # ---- specification
    def x(self, i):
        return Cx(T.app("u", i), T.app("v", i) if self.tw else T.ZERO)

    def addto(self, E, q, k):
        """what a constituent with basis value E contributes, by the contract of ut_cs2cep (entry k of its q-th call)"""
        X = [T.lift(a.get(k)) for a in self.cep[q]]
        if not self.tw:
            z = E * Cx(X[0], -X[1])           # A exp(-ig) = Xu - iYu
            return Cx(z.re, T.ZERO)
        Xu, Yu, Xv, Yv = X
        ap = Cx((Xu + Yv) / 2, (Xv - Yu) / 2)  # (Lsmaj+Lsmin)/2 exp(i(theta-g))
        am = Cx((Xu - Yv) / 2, (Xv + Yu) / 2)  # (Lsmaj-Lsmin)/2 exp(i(theta+g))
        return E * ap + E.conj() * am

    def EN(self, t, k):
        return Ecx(t, T.app("frqN", k), T.app("lindN", k, sort="I", nonneg=True))

    def F(self, t):
        """the fitted model at time t, from the solution's parameters: mean, trend and all constituents"""
        c = self.coef
        n = c.nNR
        s = T.sum_(n, lambda k: self.addto(self.EN(t, k), 0, k))
        off = T.ZERO
        for k, ni in enumerate(groups(self.shape)):
            s = s + self.addto(Eref(t, k), 0, A.dim(T.lift(n) + k))
            s = s + over_members(ni, lambda j: self.addto(Einf(t, k, j), 1, A.dim(off + T.lift(j))))
            off = off + T.lift(ni)
        o = self.out
        if self.tw:
            z = Cx(T.lift(o["umean"]), T.lift(o["vmean"]))
            sl = Cx(T.lift(o["uslope"]), T.lift(o["vslope"])) if self.trend else None
        else:
            z = Cx(T.lift(o["mean"]), T.ZERO)
            sl = Cx(T.lift(o["slope"]), T.ZERO) if self.trend else None
        s = Cx.of(s) + z
        if sl is not None:
            s = s + sl * Cx(t - T.var("tref"), T.ZERO)
        return s

    def residual(self, i):
        return self.x(i) - self.F(T.app("t", i))

    def normal(self, c):
        """normal equation of column c (contract of numpy.linalg.lstsq): zero"""
        B, xr = self.fit
        Bm = A.dot(B, self.marr())

        def term(i):
            return Cx.of(T.lift(B.get(A.dim(i), c))).conj() * (Cx.of(T.lift(xr.get(A.dim(i)))) - Cx.of(T.lift(Bm.get(A.dim(i)))))
        return T.sum_(self.nt, term)

    def inner(self, basis):
        """<basis, residual> over the samples"""
        return T.sum_(self.nt, lambda i: basis(i).conj() * self.residual(i))


def label(tw, trend, method, shape, approx=False):
    return ",".join(["vector" if tw else "scalar", "trend" if trend else "no trend", method,
                     "no inference" if shape is None else ("approximate " if approx else "") + f"inference {list(shape)}"])


SHAPES = [None, (1,), (2, 1), ("n",), ("n", "n")]


def params(w, s):
    """the solution holds the parameters ut_cs2cep returned, non-inferred first, in the order of the constituent list"""
    o, c = w.out, w.coef
    keys = (("Lsmaj", "L"), ("Lsmin", "l"), ("theta", "th"), ("g", "g")) if w.tw else (("A", "L"), ("g", "g"))
    k = gen(c.nNR, "k")
    tot = c.nNR + c.nR + c.nI
    for key, nm in keys:
        a = A.as_sarr(o[key])
        s.true(f"{key}: one per constituent", a.ndim == 1 and A.same_dim(a.shape[0], tot))
        s.eq(f"{key} of the constituents solved for", a.get(k), T.app(nm + "0", k))
        for kind, g, j, e in members(w.shape):
            pos = A.dim(T.lift(c.nNR) + T.lift(e) + (0 if kind == "R" else c.nR))
            if kind == "R":
                s.eq(f"{key} of reference {g}", a.get(pos), T.app(nm + "0", T.lift(pos)))
            else:
                s.eq(f"{key} of inferred {g},{j if isinstance(j, int) else 'j'}", a.get(pos), T.app(nm + "1", T.lift(e)))
    s.true("ellipse parameters computed once per group", len(w.cep) == (2 if w.shape else 1))


def ratios(w, s):
    """C12: the inferred constituent's rotary coefficients are the prescribed ratio times the reference's"""
    c = w.coef

    def rot(q, k):
        X = [T.lift(a.get(k)) for a in w.cep[q]]
        if w.tw:
            Xu, Yu, Xv, Yv = X
            return Cx((Xu + Yv) / 2, (Xv - Yu) / 2), Cx((Xu - Yv) / 2, (Xv + Yu) / 2)
        return (Cx(X[0], -X[1]),)                  # A exp(-ig)
    for kind, g, j, e in members(w.shape):
        if kind != "I":
            continue
        ref = rot(0, A.dim(T.lift(c.nNR) + g))
        mine = rot(1, e)
        nm = f"inferred {g},{j if isinstance(j, int) else 'j'}: "
        s.eq(nm + ("anticlockwise part is Rp times the reference's" if w.tw else "amplitude ratio and phase offset"),
             mine[0], Rsym("p", g, j, w.tw) * ref[0])
        if w.tw:
            s.eq(nm + "clockwise part is Rm times the reference's", mine[1], Rsym("m", g, j, w.tw) * ref[1])


def model_is_fit(w, s):
    """C01: the model built from the parameters is the fitted one at every sample"""
    i = gen(w.nt, "i")
    B, xr = w.fit
    s.true("one row per sample, one column per coefficient", A.same_dim(B.shape[0], w.nt) and A.same_dim(B.shape[1], A.dim(T.lift(w.nc))))
    Bm = Cx.of(T.lift(A.dot(B, w.marr()).get(i)))
    Fi = w.F(T.app("t", i))
    s.eq("data of the fit", Cx.of(T.lift(xr.get(i))), w.x(i))
    if w.tw:
        s.eq("fit at a sample = model from the parameters", Bm, Fi)
    else:
        s.eq("fit at a sample = model from the parameters", Bm.re, Fi.re)


def optimum(w, s):
    """C02: the residual is orthogonal to every column of the model (normal equations of the least-squares problem)"""
    c = w.coef
    k = gen(c.nNR, "k")
    n = c.nNR
    tau = lambda i: Cx((T.app("t", i) - T.var("tref")) / T.var("lor"), T.ZERO)

    def pair(name, basis, c1, c2):
        # columns c1 (basis) and c2 (its conjugate)
        if w.tw:
            s.eq(f"residual orthogonal to {name}", w.inner(basis), w.normal(c1))
            s.eq(f"residual orthogonal to the conjugate of {name}", w.inner(lambda i: basis(i).conj()), w.normal(c2))
        else:
            z = w.normal(c1) + w.normal(c2).conj()
            s.eq(f"residual orthogonal to {name}", w.inner(basis), Cx(z.re / 2, z.im / 2))
    pair("a constituent", lambda i: w.EN(T.app("t", i), k), k, A.dim(n + k))
    gs = groups(w.shape)
    for g, ni in enumerate(gs):
        def col(i, g=g, ni=ni):
            t = T.app("t", i)
            z = Eref(t, g)
            if not w.approx:
                z = z + over_members(ni, lambda j: Einf(t, g, j) * Rsym("p", g, j, w.tw))
            return z

        def colm(i, g=g, ni=ni):
            t = T.app("t", i)
            z = Eref(t, g).conj()
            if not w.approx:
                z = z + over_members(ni, lambda j: Einf(t, g, j).conj() * Rsym("m", g, j, w.tw))
            return z
        c1, c2 = A.dim(2 * n + g), A.dim(2 * n + len(gs) + g)
        if w.tw:
            s.eq(f"residual orthogonal to reference {g} with what is inferred from it", w.inner(col), w.normal(c1))
            s.eq(f"residual orthogonal to the clockwise part of reference {g}", w.inner(colm), w.normal(c2))
        else:
            pair(f"reference {g} with what is inferred from it", col, c1, c2)
    last = A.dim(T.lift(w.nc) - 1)
    one = lambda i: Cx(T.ONE, T.ZERO)

    def real_col(name, basis, cc):
        z = w.normal(cc)
        if w.tw:
            s.eq(f"residual orthogonal to the {name}", w.inner(basis), z)
        else:
            s.eq(f"residual orthogonal to the {name}", w.inner(basis).re, z.re)
    if w.trend:
        real_col("mean", one, A.dim(T.lift(w.nc) - 2))
        real_col("trend", tau, last)
    else:
        real_col("mean", one, last)


def handed_to_confidence(w, s):
    """what the interval estimate is given: residual, model, weights and coefficients of this fit"""
    c = w.conf
    if c is None:
        s.note("intervals requested", False)
        return
    i = gen(w.nt, "i")
    Bm = Cx.of(T.lift(A.dot(w.fit[0], w.marr()).get(i)))
    if not w.tw:
        Bm = Cx(Bm.re, T.ZERO)
    W = T.ONE if w.method == "ols" else T.app("w", i, nonneg=True)
    s.note("solution, constituents and options", c["same"])
    s.eq("fitted values", Cx.of(T.lift(c["xmod"].get(i))), Bm)
    s.eq("weighted residuals", Cx.of(T.lift(c["e"].get(i))), (w.x(i) - Bm) * Cx(W, T.ZERO))
    s.eq("weights", T.lift(A.as_sarr(c["W"]).get(i)), W)
    s.eq("data", Cx.of(T.lift(c["xraw"].get(i))), w.x(i))
    s.eq("effective record length", c["elor"], T.var("elor"))
    s.eq("times", T.lift(c["t"].get(i)), T.app("t", i))
    s.eq("equispaced times", T.lift(c["tin"].get(i)), T.app("tgood", i))
    k = gen(w.nc, "k")
    s.eq("coefficients", Cx.of(T.lift(A.as_sarr(c["m"]).get(k))), w.m(k))
    s.eq("design matrix", Cx.of(T.lift(c["B"].get(i, k))), Cx.of(T.lift(w.fit[0].get(i, k))))


def book(w, s):
    o = w.out
    s.note("the solution is the selected one, completed", o is w.coef)
    s.true("names, frequencies and table indices are those of the selection",
           o["name"] == "names" and o["aux"]["frq"] == "all frequencies" and o["aux"]["lind"] == "all indices")
    s.eq("reference time recorded", o["aux"]["reftime"], T.var("tref"))
    s.note("options and latitude recorded", o["aux"].opt is w.opt)
    s.eq("latitude recorded", o["aux"].lat, T.var("lat"))
    i = gen(w.nt, "i")
    s.eq("weights of the fit recorded", T.lift(A.as_sarr(o["weights"]).get(i)), T.ONE if w.method == "ols" else T.app("w", i, nonneg=True))
    want = {"slope", "uslope", "vslope"} & set(o)
    s.true("trend reported exactly when fitted", want == ((({"uslope", "vslope"} if w.tw else {"slope"})) if w.trend else set()))
    s.true("mean reported", ("umean" in o and "vmean" in o) if w.tw else "mean" in o)
    s.true("constituents put in order once", w.calls.count("reorder") == 1 and w.calls[-1] == "reorder")


def units(s, wanted, methods=("ols", "robust"), shapes=SHAPES, approx=(False,), replay=None):
    for tw in (False, True):
        for trend in (False, True):
            for method in methods:
                for shape in shapes:
                    for ax in approx if shape is not None else (False,):
                        with s.unit(f"_solv1[{label(tw, trend, method, shape, ax)}]", seconds=90, replay=replay):
                            def body():
                                w = World(s, tw, trend, method, shape, ax)
                                w.run()
                                for f in wanted:
                                    f(w, s)
                                s.note("nothing passed in is written", not w.it.frame_violations)
                                s.sanity()
                            for facts, (kind, r) in s.paths(body):
                                if kind == "exc":
                                    s.true(f"no exception ({r})", False)


def run_c01(s):
    s.lemma("normal_equations_minimise", "normal_equations_unique")
    units(s, [params, model_is_fit, book])


def run_c02(s):
    units(s, [model_is_fit, optimum], methods=("ols",))


def run_c12(s):
    units(s, [params, ratios, model_is_fit], shapes=SHAPES[1:])
    for n in (3, 5):
        units(s, [params, ratios, model_is_fit], methods=("ols",), shapes=[("n",) * n])
    with s.finding("approximate-inference"):
        units(s, [params, ratios], shapes=SHAPES[1:], approx=(True,))


def run_c08(s):
    units(s, [params, book])


def run_c13(s):
    units(s, [handed_to_confidence])


def run_c18(s):
    """options take effect: which steps run, and what they are given"""
    for tw in (False, True):
        for method in ("ols", "robust"):
            for conf in ("linear", "MC", "none"):
                with s.unit(f"_solv1[{label(tw, True, method, None)}, intervals {conf}]", seconds=60):
                    def body():
                        w = World(s, tw, True, method, None, conf=conf)
                        w.run()
                        book(w, s)
                        s.true("intervals exactly when asked for", (w.conf is not None) == (conf != "none"))
                        s.true("diagnostics exactly when asked for", ("PE" in w.calls and "SNR" in w.calls) == (conf != "none") and ("SNR" in w.out) == (conf != "none"))
                        s.true("the fit asked for", w.fit is not None and ("rf" in w.out) == (method == "robust"))
                        s.note("nothing passed in is written", not w.it.frame_violations)
                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)


def run_solve(s):
    """solve: the options are processed with the dimension of the data and handed on with the data"""
    for tw in (False, True):
        with s.unit(f"solve[{'vector' if tw else 'scalar'}]"):
            def body():
                from ..objs import OVal
                vals = {k: OVal("given " + k) for k in ("constit", "epoch", "method")}
                t, u, v, lat, out = (OVal(x) for x in ("t", "u", "v", "lat", "solution"))
                proc = {"cnstit": OVal("processed constit"), "epoch": OVal("processed epoch"), "infer": OVal("processed inference")}
                seen = []

                def process(it, opts, two):
                    s.true("every option given is processed, and only those", dict(opts).keys() == vals.keys() and all(opts[k] is vals[k] for k in vals))
                    s.true("with the number of components", two is tw or (not isinstance(two, bool) and bool(two) == tw))
                    seen.append("options")
                    return Bunch(proc)

                def solv1(it, a, b, c, d, **o):
                    s.true("data handed on as given", a is t and b is u and c is (v if tw else None) and d is lat)
                    s.true("processed options handed on", o.keys() == proc.keys() and all(o[k] is proc[k] for k in proc))
                    seen.append("solve")
                    return out
                it = Interp(contracts={"utide._solve._process_opts": process, "utide._solve._solv1": solv1})
                r = it.call(m_solve.solve, (t, u) + ((v,) if tw else ()), dict(vals, lat=lat))
                s.used(it)
                s.true("the solution is returned", r is out and seen == ["options", "solve"])
            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)
