"""robustfit: loop invariant of the iteration, postcondition of the fit, leverage."""
from __future__ import annotations

from ..interp import Cut, _Break, _Continue
from ..lib import *  # noqa
from .. import npmodel

Bunch = m_util.Bunch
M = npmodel.MODELS
T.UPPER["weight"] = T.UPPER["w_i"] = T.UPPER["w_old"] = lambda a: T.ONE
LOCALS = ("w", "oldw", "oldlstsq", "oldrsumsq", "oldrmeansq", "iterations")


def weight(key, k):
    """contract of a weight function: depends on the residuals only, lies in [0, 1] (c_weights)"""
    return T.app("weight", key, T.lift(k), nonneg=True)


class Fit:
    def __init__(self, s, cx, cy, maxit=None, one_d=False):
        self.s, self.cx, self.cy = s, cx, cy
        self.n = n = nvar("n", 2)
        self.p = p = 1 if one_d else nvar("p", 1)
        self.one_d = one_d
        if one_d:
            self.X = carr("X", n) if cx else rarr("X", n)
            f = self.X.snap()
            self.Xm = SArr((n, 1), lambda idx: f((idx[0],)), self.X.dt)
        else:
            self.X = self.Xm = carr("X", n, p) if cx else rarr("X", n, p)
        self.y = carr("y", n) if cy else rarr("y", n)
        self.maxit = nvar("maxit", 1) if maxit is None else maxit
        self.tune = T.var("tune", nonneg=True)
        self.tol = T.var("tol", nonneg=True)
        self.last = None
        self.loops = 0
        con = {f"utide.robustfit.{k}": self.c_weight for k in m_rob.wfuncdict}
        con["utide.robustfit.leverage"] = self.c_leverage
        self.it = Interp(contracts=con, loop_contracts={("robustfit", 0): self.loop} if maxit is None else {})

    # ---- contracts of the callees
    def c_weight(self, it, r):
        r = A.as_sarr(r)
        self.s.true("weights of one-dimensional residuals", r.ndim == 1 and A.same_dim(r.shape[0], self.n))
        self.last = r
        key = A.arr_key(r)
        return SArr((self.n,), lambda idx: weight(key, idx[0]), "f", owner="result")

    def c_leverage(self, it, x):
        x = A.as_sarr(x)
        i, j = gen(self.n), gen(self.p)
        self.s.true("leverage of the model matrix", x.ndim == 2 and A.same_dim(x.shape[0], self.n) and A.same_dim(x.shape[1], self.p))
        self.s.eq("leverage of the model matrix itself", x.get(i, j), self.Xm.get(i, j))
        return rarr("lev", self.n, nonneg=True, owner="result")

    # ---- the fit with given weights
    def ls(self, w):
        """(coefficients, sum of squared weighted residuals, rank, singular values) of the least-squares problem with weights w"""
        w = A.as_sarr(w)
        wf, X, y = w.snap(), self.Xm.snap(), self.y.snap()
        r = lambda z: Cx(T.lift(z), T.ZERO)
        wX = SArr((self.n, self.p), lambda idx: T.lift(X(idx)) * (r(wf(idx[:1])) if self.cx else T.lift(wf(idx[:1]))), self.X.dt)
        wy = SArr((self.n,), lambda idx: T.lift(y(idx)) * (r(wf(idx)) if self.cy else T.lift(wf(idx))), self.y.dt)
        b, _, rank, sing = M[id(np.linalg.lstsq)][1](Interp(), wX, wy, None)
        res = A.ew(lambda a, c: T.lift(a) - T.lift(c), wy, A.dot(wX, b))
        return b, self.ssq(res), rank, sing

    def ssq(self, r):
        f = A.as_sarr(r).snap()
        return T.sum_(self.n, lambda i: Cx.of(T.lift(f((A.dim(i),)))).re ** 2 + Cx.of(T.lift(f((A.dim(i),)))).im ** 2)

    def resid(self, b):
        return A.ew(lambda a, c: T.lift(a) - T.lift(c), self.y, A.dot(self.Xm, b))

    def normalised(self, b):
        r = self.resid(b)
        sg = self.scale = Interp().call(m_rob.sigma_hat, (r,))
        fac = lambda i: 1 / (self.tune * T.sqrt_(1 - T.app("lev", T.lift(i), nonneg=True)))
        f = r.snap()
        return SArr((self.n,), lambda idx: T.lift(f(idx)) * (Cx(fac(idx[0]) / sg, T.ZERO) if r.dt == "c" else fac(idx[0]) / sg), r.dt)

    # ---- loop contract
    def loop(self, it, node, seq, env):
        s, v = self.s, env.vars
        self.loops += 1
        if any(k not in v for k in LOCALS):
            raise Unsupported("the loop invariant of robustfit does not fit the loop's variables")
        if not (isinstance(seq, npmodel.SIter) or hasattr(seq, "n")):
            raise Unsupported("iteration of robustfit over something else than a range")
        seq = it.iterate(seq)
        if not (A.same_dim(A.dim(seq.n), A.dim(self.maxit)) and seq.f(T.var("zz", "I", True)) == T.var("zz", "I", True)):
            raise Unsupported("iteration of robustfit over something else than range(maxit)")
        k = gen(self.n)
        if ENGINE.decide(T.bapp("first-iteration")):
            i = T.ZERO
            s.eq("before the first iteration: all weights one", A.as_sarr(v["w"]).get(k), T.ONE)
            s.true("before the first iteration: nothing kept yet", all(v[q] is None for q in LOCALS[1:5]))
        else:
            i = T.fresh("i", "I", True)
            ENGINE.push(T.cmp_("le", 1, i))
            b = T.cmp_("lt", i, self.maxit)
            ENGINE.push(b)
            v["w"] = SArr((self.n,), lambda idx: T.app("w_i", T.lift(idx[0]), nonneg=True), "f", owner="result")
            v["oldw"] = SArr((self.n,), lambda idx: T.app("w_old", T.lift(idx[0]), nonneg=True), "f", owner="result")
            b_, ssq, rank, sing = self.ls(v["oldw"])
            v["oldlstsq"] = (b_, ssq, rank, sing)
            v["oldrsumsq"] = ssq
            v["oldrmeansq"] = ssq / T.sum_(self.n, lambda j: T.app("w_old", T.lift(j), nonneg=True))
            one = self.ls(SArr((self.n,), lambda idx: T.ONE, "f"))
            if isinstance(v.get("out"), dict):
                v["out"].update(ols_b=one[0], ols_rms_resid=T.sqrt_(one[1] / T.lift(self.n)))
        it.assign(node.target, A.dim(i), env)
        try:
            it.block(node.body, env)
        except _Break:
            return
        except _Continue:
            pass
        if ENGINE.decide(T.eq_(i + 1, T.lift(self.maxit))):
            return                                                  # the range is exhausted
        self.invariant(i, v)
        raise Cut()

    def invariant(self, i, v):
        """what holds before the next iteration"""
        s, k, j = self.s, gen(self.n), gen(self.p)
        s.note("number of iterations still open", isinstance(v["iterations"], (int, Poly)) and T.lift(v["iterations"]) == T.ZERO)
        w, oldw = A.as_sarr(v["w"]), A.as_sarr(v["oldw"])
        s.true("invariant: weights in [0, 1]", T.and_(T.cmp_("le", 0, w.get(k)), T.cmp_("le", w.get(k), 1)))
        s.true("invariant: kept weights in [0, 1]", T.and_(T.cmp_("le", 0, oldw.get(k)), T.cmp_("le", oldw.get(k), 1)))
        b, ssq, rank, sing = self.ls(oldw)
        o = v["oldlstsq"]
        if not (isinstance(o, tuple) and len(o) == 4):
            raise Unsupported("what robustfit keeps of an iteration")
        s.eq("invariant: kept coefficients are the fit with the kept weights", A.as_sarr(o[0]).get(j), b.get(j))
        s.eq("invariant: kept sum of squares", o[1], ssq)
        s.eq("invariant: kept rank", o[2], rank)
        s.eq("invariant: kept singular values", A.as_sarr(o[3]).get(j), sing.get(j))
        s.eq("invariant: kept sum of squares (again)", v["oldrsumsq"], ssq)
        f = oldw.snap()
        s.eq("invariant: kept weighted mean square", v["oldrmeansq"], ssq / T.sum_(self.n, lambda q: T.lift(f((A.dim(q),)))))
        same = self.normalised(b)
        s.true("weights renewed", self.last is not None)
        s.true("residuals normalised by a scale that is not zero", T.not_(T.eq_(self.scale, T.ZERO)))
        s.eq("invariant: weights are those of the normalised residuals of the last fit", self.last.get(k), same.get(k))
        s.eq("invariant: and of nothing else", w.get(k), weight(A.arr_key(self.last), k))

    # ---- postcondition
    def post(self, out):
        s, k, j = self.s, gen(self.n), gen(self.p)
        w = A.as_sarr(out["w"])
        wk = T.lift(w.get(k))
        s.true("one real weight per sample", w.ndim == 1 and A.same_dim(w.shape[0], self.n) and not isinstance(wk, Cx))
        s.true("returned weights in [0, 1]", T.and_(T.cmp_("le", 0, wk), T.cmp_("le", wk, 1)))
        b, ssq, rank, sing = self.ls(w)
        s.eq("returned coefficients minimise the sum of squares with the returned weights", A.as_sarr(out["b"]).get(j), b.get(j))
        s.eq("rank of that fit", out["rank"], rank)
        s.eq("singular values of that fit", A.as_sarr(out["s"]).get(j), sing.get(j))
        s.eq("rms of its unweighted residuals", out["rms_resid"], T.sqrt_(self.ssq(self.resid(b)) / T.lift(self.n)))
        one = self.ls(SArr((self.n,), lambda idx: T.ONE, "f"))
        s.eq("first iteration is the ordinary fit", A.as_sarr(out["ols_b"]).get(j), one[0].get(j))
        s.eq("rms residual of the ordinary fit", out["ols_rms_resid"], T.sqrt_(one[1] / T.lift(self.n)))
        s.true("at least one iteration", T.cmp_("le", 1, out["iterations"]))
        s.true("no more iterations than the limit", T.cmp_("le", out["iterations"], self.maxit))
        s.true("nothing passed in is overwritten", not self.it.frame_violations)
        s.sanity()

    def call(self):
        out = self.it.call(m_rob.robustfit, (self.X, self.y), {"tune": self.tune, "tol": self.tol, "maxit": self.maxit, "weight_function": "cauchy"})
        self.s.used(self.it)
        return out


def fuzz_robust(v=None):
    rng = np.random.default_rng(3)
    for k in range(60):
        n, p = int(rng.integers(6, 40)), int(rng.integers(1, 4))
        X = rng.normal(size=(n, p)) + (1j * rng.normal(size=(n, p)) if k % 2 else 0)
        y = X @ rng.normal(size=p) + rng.normal(size=n) * 0.1 + (1j * rng.normal(size=n) if k % 4 > 1 else 0)
        y[:: int(rng.integers(3, 9))] += 10 * rng.normal()
        name = sorted(m_rob.wfuncdict)[k % 9]
        maxit = int(rng.choice([1, 2, 3, 50]))
        out = m_rob.robustfit(X.copy(), y.copy(), weight_function=name, maxit=maxit, rcond=None)
        w = np.asarray(out.w)
        if not (1 <= out.iterations <= maxit) or w.shape != y.shape or (w < 0).any() or (w > 1 + 1e-12).any():
            return f"robustfit with {name}, maxit={maxit}: {out.iterations} iterations, weights {w.min()}..{w.max()}"
        b = np.linalg.lstsq(w[:, None] * X, w * y, rcond=None)[0]
        if np.abs(b - out.b).max() > 1e-8 * (1 + np.abs(b).max()):
            return f"robustfit with {name}, maxit={maxit}: coefficients {out.b.tolist()} do not minimise for the returned weights ({b.tolist()})"
        b0 = np.linalg.lstsq(X, y, rcond=None)[0]
        if np.abs(b0 - out.ols_b).max() > 1e-8 * (1 + np.abs(b0).max()):
            return f"robustfit: first iteration {out.ols_b.tolist()} is not the ordinary fit {b0.tolist()}"
        if abs(out.rms_resid - np.sqrt(np.mean(np.abs(y - X @ out.b) ** 2))) > 1e-8 * (1 + out.rms_resid):
            return f"robustfit: rms residual {out.rms_resid} is not that of the returned coefficients"
    return ("no failing input", 60)


def run(s):
    s.lemma("normal_equations_minimise")
    for cx, cy, one_d in ((True, True, False), (True, False, False), (False, False, False), (False, True, True)):
        name = f"{'complex' if cx else 'real'} model, {'complex' if cy else 'real'} data{', one column' if one_d else ''}"
        with s.unit(f"robustfit[{name}]", replay=fuzz_robust, seconds=60):
            def body(maxit=None):
                f = Fit(s, cx, cy, one_d=one_d, maxit=maxit)
                out = f.call()
                if maxit is None and f.loops != 1:
                    raise Unsupported("robustfit does not run its loop once")
                f.post(out)
            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)
        if not s.done(f"robustfit[{name}]"):
            # the invariant does not fit the loop as it is written now: bounded stand-in, the loop unrolled
            for k in (1, 2):
                with s.unit(f"robustfit[{name}] unrolled, {k} iterations (bounded)", replay=fuzz_robust, seconds=60):
                    for facts, (kind, r) in s.paths(lambda: body(k)):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)
    with s.unit("leverage"):
        def body():
            for cx in (True, False):
                n, p = nvar("n", 2), nvar("p", 1)
                x = carr("X", n, p) if cx else rarr("X", n, p)
                it = Interp()
                lev = A.as_sarr(it.call(m_rob.leverage, (x,)))
                s.used(it)
                s.true("one per sample", lev.ndim == 1 and A.same_dim(lev.shape[0], n))
                pin = M[id(np.linalg.pinv)][1](it, x)
                k = gen(n)
                h = A.dot(x, pin).get(k, k)
                s.eq("modulus of the diagonal of X pinv(X)", lev.get(k), T.sqrt_(Cx.of(h).re ** 2 + Cx.of(h).im ** 2) if cx else T.abs_(T.lift(h)))
                s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
