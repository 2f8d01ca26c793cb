"""_confidence: coefficient covariances, rescaling to the band's residual power, linear and Monte-Carlo intervals."""
from __future__ import annotations

import time

from ..lib import *  # noqa
from ..prove import PROVED

Bunch = m_util.Bunch
L4 = ("Xu", "Yu", "Xv", "Yv")


def nNR():
    return T.var("nNR", "I", True)


class World:
    unrecognised = 0

    def __init__(self, s, tw, white, linci, groups=None):
        if World.unrecognised >= 2:
            raise Unsupported("the covariance of the coefficients was not recognised")
        self.s, self.tw, self.white, self.linci = s, tw, white, linci
        from .c_solve import groups as sizes, total
        self.groups = sizes(groups)
        for x in self.groups:
            if not isinstance(x, int):
                ENGINE.push(T.cmp_("le", 1, T.lift(x)))
        n = nNR()
        if not self.groups:
            b = T.cmp_("le", 1, n)
            if not isinstance(b, bool):
                ENGINE.push(b)
        nR = len(self.groups)
        self.nc = A.dim(n + nR)
        self.ntot = A.dim(n + nR + total(self.groups))
        self.nm = nvar("nm")
        for b in (T.cmp_("le", 2 * (n + nR) + 1, self.nm),):
            ENGINE.push(b)
        self.nt = nvar("nt")
        ENGINE.push(T.cmp_("lt", self.nm, self.nt))
        nt, nm, nc = self.nt, self.nm, self.nc
        self.B = carr("B", nt, nm)
        self.W = rarr("W", nt, nonneg=True)
        self.m = carr("m", nm)
        self.xraw = carr("x", nt) if tw else rarr("x", nt)
        self.xmod = carr("xm", nt) if tw else rarr("xm", nt)
        self.X = {k: rarr(k, nc) for k in L4[: 4 if tw else 2]}
        self.coef = c = Bunch(nNR=n, nR=nR, nI=total(self.groups), name="names")
        c["aux"] = Bunch(frq=rarr("frq", self.ntot))
        for k in (("Lsmaj", "Lsmin", "theta", "g") if tw else ("A", "g")):
            c[k] = rarr(k, self.ntot)
        self.cnstit = Bunch(R=[])
        for k, ni in enumerate(self.groups):
            from .c_solve import ratios_of
            self.cnstit.R.append(Bunch(nI=ni, I=Bunch(Rp=ratios_of("p", k, ni, tw), Rm=ratios_of("m", k, ni, tw))))
        self.opt = Bunch(white=white, linci=linci, twodim=tw, infer=Bunch(approximate=False) if self.groups else None,
                         nrlzn=nvar("nrlzn", 2), equi=True, lsfrqosmp=1)
        self.e = carr("e", nt) if tw else rarr("e", nt)
        self.t, self.tin = rarr("t", nt), rarr("tin", T.var("ntin", "I", True))
        self.spectra = 0
        self.it = Interp(contracts={
            "utide.confidence.band_averaged_psd_by_constit": self.c_band, "utide.confidence.ut_linci": self.c_linci,
            "utide.ellipse_params.ut_cs2cep": self.c_cep, "utide.confidence.cluster": self.c_cluster,
            "utide.confidence.nearestSPD": self.c_spd})

        self.cuts = {}
        self.draws, self.spds = [], []
        self.it.models[id(np.random.multivariate_normal)] = self.c_mvn
        self.it.on_value = self.cut

    # ---- cut points: a matrix proved to be the covariance C (Hermitian: the inverse of a Hermitian matrix) or the
    #      pseudo-covariance P (symmetric: K M K' with M symmetric) is replaced by a symbolic matrix of that kind
    def cut(self, v):
        if not (isinstance(v, SArr) and v.ndim == 2 and v.base is None and not v.is_ma and v.dt == "c" and A.CTX.loop is None
                and all(A.same_dim(d, self.nm) for d in v.shape)) or len(self.cuts) == 2:
            return
        i, j = T.fresh("i", "I", True), T.fresh("j", "I", True)
        raw = self.raw()
        for name in ("C", "P"):
            if name in self.cuts:
                continue
            with using([T.cmp_("lt", i, self.nm), T.cmp_("lt", j, self.nm)]):
                self.s.prover.exact = True
                o = self.s._eq(Cx.of(v.get(i, j)), raw[name](i, j))
                self.s.prover.exact = False
            if o.status == PROVED:
                self.s.record(f"{'covariance' if name == 'C' else 'pseudo-covariance'} of the coefficients", o)
                self.cuts[name] = f = {"C": herm, "P": symm}[name]
                v._fn = lambda idx: f(idx[0], idx[1])
                return

    # ---- contracts of the callees
    def c_band(self, it, tin, t, e, elor, coef, opt):
        self.spectra += 1
        for what, got, want in (("spectra of the weighted residuals", e, self.e), ("spectra at the sample times", t, self.t), ("record of the valid times handed on", tin, self.tin)):
            if got is want:
                self.s.true(what, True)
            else:
                self.s.eq(what, got, want)
        self.s.eq("effective record length handed on", elor, T.var("elor"))
        self.s.note("solution and options handed on", coef is self.coef and opt is self.opt)
        n = self.ntot
        return (rarr("Puu", n, nonneg=True, owner="result"),) + ((rarr("Pvv", n, nonneg=True, owner="result"), rarr("Puv", n, owner="result")) if self.tw else (None, None))

    def c_linci(self, it, X, Y, sX, sY):
        """contract of ut_linci: its four results depend on the eight real numbers only"""
        two = any(isinstance(z, Cx) for z in (X, Y, sX, sY))
        self.s.true("linearisation of the kind of the series", two == self.tw)
        return linci(X, Y, sX, sY, two)

    def c_cep(self, it, XY, *rest):
        if rest:
            raise Unsupported("ut_cs2cep with several arguments")
        XY = A.as_sarr(XY)
        n = XY.shape[0]
        self.s.true("draws of all the coefficients", XY.ndim == 2 and A.same_dim(XY.shape[1], 4 if self.tw else 2))
        key = A.arr_key(XY)
        for k, c in self.draws:
            if k == key:
                key = c
                break
        return tuple(SArr((n,), lambda idx, q=q: cep(q, key, idx[0]), "f") for q in range(4))

    def c_mvn(self, it, mean, cov, size=None, **kw):
        """draws around the fitted coefficients of some constituent with the covariance of that constituent"""
        s = self.s
        it.trusted.add("numpy.random.multivariate_normal")
        if kw:
            raise Unsupported("options of multivariate_normal")
        mean = A.as_sarr(list(mean) if isinstance(mean, tuple) else mean)
        cov = A.as_sarr(cov)
        d = 4 if self.tw else 2
        s.eq("number of draws", size, self.opt.nrlzn)
        m0 = T.lift(mean.get(0))
        at = [a for a in T.atoms_of(m0) if a.kind == "app" and a.args[0] == "Xu"]
        if len(at) != 1:
            raise Unsupported("draws not centred on a coefficient")
        c = at[0].args[1]
        for k in range(d):
            s.eq(f"draws centred on the fitted {L4[k]}", mean.get(k), T.app(L4[k], c))
        M = cov
        for key, X in self.spds:
            if all(A.as_sarr(cov).get(i, j) == T.app("spd", key, T.lift(i), T.lift(j)) for i in range(d) for j in range(d)):
                M = X
                break
        else:
            if not self.white:
                s.note("a rescaled covariance is made positive definite", False)
        want = self.draw_covariance(c)
        for i in range(d):
            for j in range(d):
                s.eq(f"covariance of {L4[i]} and {L4[j]} of the draws", M.get(i, j), want[i][j])
        out = SArr((A.dim(size), d), lambda idx: T.app("draw", c, *map(T.lift, idx)), "f")
        self.draws.append((A.arr_key(out), c))
        return out

    def draw_covariance(self, c):
        n = T.lift(nNR())
        first = T.cmp_("lt", c, n)
        V = self.covariance_at(T.ite(first, c, c + n), T.ite(first, c + n, c + n + self.coef.nR))
        w = [[V[a, b] for b in L4] for a in L4]
        if self.white:
            return w
        P = lambda q: T.app(q, c, nonneg=q != "Puv")
        sc = [P("Puu") / (w[0][0] + w[1][1])] * 2 + [P("Pvv") / (w[2][2] + w[3][3])] * 2
        out = [[None] * 4 for _ in range(4)]
        tot = sum((T.abs_(w[i][j]) for i in (0, 1) for j in (2, 3)), T.ZERO)
        for i in range(4):
            for j in range(4):
                if (i < 2) == (j < 2):
                    out[i][j] = w[i][j] * sc[i]
                else:
                    out[i][j] = T.ite(T.cmp_("lt", 0, tot), P("Puv") * w[i][j] / tot, T.ZERO)
        return out

    def c_cluster(self, it, x, ang=360):
        """whole turns that bring every value within half a turn of the first (c_small:run_cluster)"""
        x = A.as_sarr(x)
        f, x0, ang = x.snap(), T.lift(x.get(0)), T.lift(ang)
        return SArr(x.shape, lambda idx: T.lift(f(idx)) - ang * T.floor_((T.lift(f(idx)) - x0) / ang + T.pconst(T.Fraction(1, 2))), "f")

    def c_spd(self, it, M):
        M = A.as_sarr(M)
        k = A.arr_key(M)
        f = M.snap()
        self.spds.append((k, SArr(M.shape, f, "f")))
        return SArr(M.shape, lambda idx: T.app("spd", k, *map(T.lift, idx)), "f")

    def run(self):
        x = [self.X[k] if k in self.X else [] for k in L4]
        self.out = self.it.call(m_conf._confidence, (self.coef, self.cnstit, self.opt, self.t, self.e, self.tin, T.var("elor"), self.xraw, self.xmod,
                                                     self.W, self.m, self.B, *x))
        self.s.used(self.it)
        missing = [k for k in ("C", "P") if k not in self.cuts]
        if missing:
            # the least-squares moments are not recognised: the intervals are compared with unabbreviated formulas (slow), twice
            World.unrecognised += 1
            self.s.prover.deadline = ENGINE.deadline = min(self.s.prover.deadline, time.time() + 25)
        return self.out

    # ---- specification: second moments of the least-squares coefficients m = inv(B'VB) B'V x,  V = diag(W**2)
    def moments(self):
        r = self.raw()
        return tuple(self.cuts.get(k, r[k]) for k in ("C", "P"))

    def raw(self):
        if hasattr(self, "_raw"):
            return self._raw
        nt, nm = self.nt, self.nm
        b = lambda t, i: Cx(T.app("B_re", T.lift(t), T.lift(i)), T.app("B_im", T.lift(t), T.lift(i)))
        V = lambda t: Cx(T.app("W", T.lift(t), nonneg=True) ** 2, T.ZERO)
        xx = lambda nm_, t: Cx(T.app(nm_ + "_re", T.lift(t)), T.app(nm_ + "_im", T.lift(t))) if self.tw else Cx(T.app(nm_, T.lift(t)), T.ZERO)
        gram = SArr((nm, nm), lambda idx: T.sum_(nt, lambda t: b(t, idx[0]).conj() * (V(t) * b(t, idx[1]))), "c")
        pgram = SArr((nm, nm), lambda idx: T.sum_(nt, lambda t: b(t, idx[0]).conj() * (V(t) * b(t, idx[1])).conj()), "c")
        from .. import npmodel
        K = npmodel.MODELS[id(np.linalg.inv)][1](self.it, gram)
        dof = T.lift(nt) - T.lift(nm)
        msm = Cx.of(T.sum_(nt, lambda t: xx("x", t).conj() * V(t) * xx("x", t)) - T.sum_(nt, lambda t: xx("xm", t).conj() * V(t) * xx("x", t))).re / dof
        pseudo = Cx.of(T.sum_(nt, lambda t: (xx("x", t) - xx("xm", t)) * (V(t) * (xx("x", t) - xx("xm", t))))) * Cx(1 / dof, T.ZERO)
        KPK = A.dot(A.dot(K, pgram), A.ew(lambda z: Cx.of(z).conj(), K))

        def C(i, j):
            return Cx.of(K.get(i, j)) * Cx(msm, T.ZERO)

        def P(i, j):
            return Cx.of(KPK.get(i, j)) * pseudo
        self._raw = {"C": C, "P": P}
        return self._raw

    def columns(self, c):
        """columns of the positive and the negative frequency part of constituent c (c below nNR, or nNR + k)"""
        n = nNR()
        if isinstance(c, tuple):
            k = c[1]
            return A.dim(2 * n + k), A.dim(2 * n + self.coef.nR + k)
        return c, A.dim(n + c)

    def covariance(self, c, D=None):
        """4x4 covariance of (Xu, Yu, Xv, Yv) of one constituent (of the one inferred from it with the ratios D)"""
        p, q = self.columns(c)
        return self.covariance_at(p, q, D)

    def covariance_at(self, p, q, D=None):
        C, P = self.moments()
        if D is not None:
            d, C0, P0 = {p: D[0], q: D[1]}, C, P
            C = lambda i, j: d[i] * C0(i, j) * d[j].conj()
            P = lambda i, j: d[i] * P0(i, j) * d[j]
        # inv(B'VB) is Hermitian and the pseudo-covariance symmetric
        C = {(0, 0): C(p, p), (0, 1): C(p, q), (1, 1): C(q, q)}
        C[1, 0] = C[0, 1].conj()
        P = {(0, 0): P(p, p), (0, 1): P(p, q), (1, 1): P(q, q)}
        P[1, 0] = P[0, 1]
        # second moments of the combinations a = mp + mm, d = mp - mm:  Xu = Re a, Yu = -Im d, Xv = Im a, Yv = Re d
        comb = {"a": (1, 1), "d": (1, -1)}

        def quad(M, x, y, cj):
            r = Cx(T.ZERO, T.ZERO)
            for i in range(2):
                for j in range(2):
                    r = r + M[i, j] * Cx(T.pconst(comb[x][i] * comb[y][j]), T.ZERO)
            return r
        what = {"Xu": ("a", "re", 1), "Yu": ("d", "im", -1), "Xv": ("a", "im", 1), "Yv": ("d", "re", 1)}
        out = {}
        for A_ in L4:
            for B_ in L4:
                (x, px, sx), (y, py, sy) = what[A_], what[B_]
                c_, p_ = quad(C, x, y, True), quad(P, x, y, False)
                if px == "re" and py == "re":
                    v = (p_.re + c_.re) / 2
                elif px == "im" and py == "im":
                    v = (c_.re - p_.re) / 2
                elif px == "re":
                    v = (p_.im - c_.im) / 2
                else:
                    v = (p_.im + c_.im) / 2
                out[A_, B_] = v * (sx * sy)
        return out


def _el(n, i, j):
    return T.app(n, T.lift(i), T.lift(j))


def herm(i, j):
    return Cx((_el("H_re", i, j) + _el("H_re", j, i)) / 2, (_el("H_im", i, j) - _el("H_im", j, i)) / 2)


def symm(i, j):
    return Cx((_el("S_re", i, j) + _el("S_re", j, i)) / 2, (_el("S_im", i, j) + _el("S_im", j, i)) / 2)


def cep(q, key, i):
    return T.app("cep" + "LlTg"[q], key, T.lift(i))


def linci(X, Y, sX, sY, two):
    sX, sY = (Cx(T.re_(z) ** 2, T.im_(z) ** 2) for z in (sX, sY))      # only the squares of the deviations matter (c_linci)
    if not two:
        a = tuple(T.re_(T.lift(z)) for z in (X, Y, sX, sY))
        return T.app("linA", *a, nonneg=True), T.app("ling", *a, nonneg=True)
    a = tuple(y for z in (X, Y, sX, sY) for y in (Cx.of(z).re, Cx.of(z).im))
    f = lambda q: T.app("lin" + q, *a, nonneg=True)
    return Cx(f("maj"), f("min")), Cx(f("g"), f("th"))


def fuzz(v=None):
    return None


_small = lambda a, g: float(g.normal()) / 4
# a positive definite covariance and a pseudo-covariance it dominates
SAMPLE = {"H_re": lambda a, g: 5 + float(g.random()) if a[0] == a[1] else float(g.normal()) / 4, "H_im": _small, "S_re": _small, "S_im": _small,
          "cepT": lambda a, g: float(g.uniform(0, 180)), "cepg": lambda a, g: float(g.uniform(0, 360)),
          "theta": lambda a, g: float(g.uniform(0, 180)), "g": lambda a, g: float(g.uniform(0, 360)),
          "nNR": lambda a, g: int(g.integers(1, 3)), "nm": lambda a, g: int(g.integers(5, 10)), "nt": lambda a, g: int(g.integers(8, 11))}


def lin_unit(s, tw, white, groups):
    with s.unit(f"_confidence[linear,{'vector' if tw else 'scalar'},{'white' if white else 'coloured'},{'inference ' + str(groups) if groups else 'no inference'}]",
                seconds=120, samplers=SAMPLE):
        def body():
            w = World(s, tw, white, True, groups)
            o = w.run()
            s.true("spectra used exactly when the background is not white", w.spectra == (0 if white else 1))
            s.note("the solution is completed in place", o is w.coef)
            cases = [("a constituent", gen(nNR(), "c"))] + [(f"reference {k}", ("R", k)) for k in range(len(w.groups))]
            for what, c in cases:
                pos = c if not isinstance(c, tuple) else A.dim(nNR() + c[1])
                var = {k: w.covariance(c)[k, k] for k in w.X}
                if not white:
                    var = {k: T.app("P" + k[1] * 2, T.lift(pos), nonneg=True) * var[k] / (var["X" + k[1]] + var["Y" + k[1]]) for k in var}
                want = interval({k: T.app(k, T.lift(pos)) for k in w.X}, var, tw)
                for k, z in want.items():
                    a = A.as_sarr(o[k])
                    s.true(f"{k}: one per constituent", A.same_dim(a.shape[0], w.ntot))
                    s.eq(f"{k} of {what}: 1.96 times the propagated deviation", a.get(pos), z)
            inferred(s, w, o)
            s.true("only the intervals of the kind of the series", {k for k in o if k.endswith("_ci")} == set(want))
            s.true("nothing passed in is overwritten", not w.it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def by_ratios(x, var, D, tw):
    """intervals the code gives an inferred constituent: variances of its reference's coefficients x through the ratios D"""
    quarter = T.pconst(T.Fraction(1, 4))
    re = quarter * (var["Xu"] + (var["Yv"] if tw else T.ZERO))
    im = quarter * (var["Yu"] + (var["Xv"] if tw else T.ZERO))
    a, b = (sum((getattr(d, part) ** 2 for d in D), T.ZERO) for part in ("re", "im"))
    vx, vy = a * re + b * im, a * im + b * re
    return interval(x, dict(Xu=vx, Yu=vy, Xv=vy, Yv=vx) if tw else dict(Xu=vx, Yu=vy), tw)


def inferred(s, w, o):
    """intervals of the inferred constituents: their covariance and coefficients follow from their reference's by the ratios"""
    from .c_solve import Rsym
    tw, ind = w.tw, A.dim(nNR() + w.coef.nR)
    for k, ni in enumerate(w.groups):
        ref = A.dim(nNR() + k)
        x = {q: T.app(q, T.lift(ref)) if q in w.X else T.ZERO for q in L4}
        # value of the code as it is (Matlab's formulas): linearised at the reference, components uncorrelated
        V0 = w.covariance(("R", k))
        var = {q: V0[q, q] for q in w.X}
        if not w.white:
            var = {q: T.app("P" + q[1] * 2, T.lift(ref), nonneg=True) * var[q] / (var["X" + q[1]] + var["Y" + q[1]]) for q in var}
        start = ind
        for j in range(ni) if isinstance(ni, int) else [gen(ni, "j")]:
            ind = A.dim(T.lift(start) + T.lift(j))
            D = Rsym("p", k, j, tw), Rsym("m", k, j, tw)
            heritage = by_ratios(x, var, D, tw)
            got = {q: A.as_sarr(o[q]).get(A.dim(ind)) for q in heritage}
            outs = {q: s._eq(got[q], heritage[q]) for q in got}
            name = f"interval of inferred constituent {j if isinstance(j, int) else 'j'} of reference {k}"
            if not w.white:
                for q in got:
                    s.record(f"{q}: {name}: by the ratios from the reference's", outs[q])
                continue
            V = w.covariance(("R", k), D)
            ap = D[0] * Cx((x["Xu"] + x["Yv"]) / 2, (x["Xv"] - x["Yu"]) / 2)
            am = D[1] * Cx((x["Xu"] - x["Yv"]) / 2, (x["Xv"] + x["Yu"]) / 2)
            xi = dict(Xu=(ap + am).re, Xv=(ap + am).im, Yu=-(ap - am).im, Yv=(ap - am).re)
            want = interval(xi, {q: V[q, q] for q in w.X}, tw)
            for q in got:
                as_was = outs[q].status == PROVED
                if as_was:
                    s.record(f"{q}: {name}: by the ratios from the reference's", outs[q])
                with s.finding("inferred-linearised-at-reference" if as_was else None):
                    s.eq(f"{q}: {name}: first-order propagation at its own coefficients", got[q], want[q])
        ind = A.dim(T.lift(start) + T.lift(ni))


def interval(x, v, tw):
    sd = {q: T.sqrt_(z) for q, z in v.items()}
    f = T.pconst(T.Fraction(196, 100))
    if tw:
        s1, s2 = linci(Cx(x["Xu"], x["Xv"]), Cx(x["Yu"], x["Yv"]), Cx(sd["Xu"], sd["Xv"]), Cx(sd["Yu"], sd["Yv"]), True)
        return dict(Lsmaj_ci=s1.re * f, Lsmin_ci=s1.im * f, g_ci=s2.re * f, theta_ci=s2.im * f)
    s1, s2 = linci(x["Xu"], x["Yu"], sd["Xu"], sd["Yu"], False)
    return dict(A_ci=s1 * f, g_ci=s2 * f)


def mad(x):
    """1.96 times the normalised median absolute deviation"""
    from .. import npmodel
    it = Interp()
    med = npmodel.MODELS[id(np.median)][1]
    d = A.ew(lambda z: T.abs_(T.lift(z) - med(it, x)), x)
    return T.pconst(T.Fraction(196, 100)) * med(it, d) / T.pconst(T.Fraction(6745, 10000))


def mc_unit(s, tw, white):
    with s.unit(f"_confidence[Monte Carlo,{'vector' if tw else 'scalar'},{'white' if white else 'coloured'}]", seconds=120, samplers=SAMPLE):
        def body():
            w = World(s, tw, white, False)
            o = w.run()
            s.true("spectra used exactly when the background is not white", w.spectra == (0 if white else 1))
            s.true("draws made", len(w.draws) > 0)
            c = gen(nNR(), "c")
            n = w.opt.nrlzn

            def q(k, first=None):
                f = lambda idx: cep(k, T.lift(c), idx[0])
                if first is None:
                    return SArr((n,), f, "f")
                return SArr((n,), lambda idx: T.ite(T.eq_(idx[0], T.ZERO), T.app(first, T.lift(c)), f(idx)), "f")
            unwrap = lambda x, ang: w.c_cluster(w.it, x, ang)
            add = lambda a, b, sg=1: A.ew(lambda x, y: T.lift(x) + T.lift(y) * sg, a, b)
            g = q(3, "g")
            want = {}
            if tw:
                th = q(2, "theta")
                turns = add(unwrap(th, 180), th, -1)
                want = dict(Lsmaj_ci=mad(q(0)), Lsmin_ci=mad(q(1)), theta_ci=mad(add(th, turns)), g_ci=mad(unwrap(add(g, turns), 360)))
            else:
                want = dict(A_ci=mad(q(0)), g_ci=mad(unwrap(g, 360)))
            for k, z in want.items():
                a = A.as_sarr(o[k])
                s.true(f"{k}: one per constituent", A.same_dim(a.shape[0], w.ntot))
                s.eq(f"{k}: 1.96 times the normalised median absolute deviation of the draws, unwrapped about the fitted value", a.get(c), z)
            s.true("only the intervals of the kind of the series", {k for k in o if k.endswith("_ci")} == set(want))
            s.true("nothing passed in is overwritten", not w.it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def run_mc(s):
    s.lemma("inv_hermitian", "sandwich_symm", "sandwich_psd")
    for tw in (False, True):
        for white in (True, False):
            mc_unit(s, tw, white)
    for white in (True, False):
        with s.unit(f"_confidence[Monte Carlo with inference,{'white' if white else 'coloured'}]"):
            def body():
                World(s, False, white, False, (1,)).run()
            for facts, (kind, r) in s.paths(body):
                s.true("refused", kind == "exc" and "NotImplementedError" in str(r))


def run_linear(s):
    s.lemma("inv_hermitian", "sandwich_symm")
    import os
    for tw in (False, True):
        for white in (True, False):
            for groups in (None, (1,), (2, 1), ("n",), ("n", "n")):
                if os.environ.get("CC") and os.environ["CC"] != f"{int(tw)}{int(white)}{len(groups or [])}":
                    continue
                lin_unit(s, tw, white, groups)
