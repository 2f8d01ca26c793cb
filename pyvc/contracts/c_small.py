"""Small helpers: cluster, r_normed/sigma_hat, complex_interp."""
from __future__ import annotations

from ..interp import Cut
from ..lib import *  # noqa


def fuzz_cluster(v=None):
    rng = np.random.default_rng(1)
    for k in range(300):
        n = int(rng.integers(1, 20))
        ang = [360, 180][k % 2]
        x = rng.uniform(-800, 800, n)
        if k % 4 == 0:
            x = np.round(x / 45) * 45
        y = m_conf.cluster(x.copy(), ang)
        turns = (y - x) / ang
        if y.shape != x.shape or np.abs(turns - np.round(turns)).max() > 1e-9 or np.abs(y - x[0]).max() > ang / 2 + 1e-9 or abs(y[0] - x[0]) > 1e-9:
            return f"cluster({x.tolist()}, {ang}) = {y.tolist()}"
    return ("no failing input", 300)


def run_cluster(s):
    for ang in (360, 180):
        with s.unit(f"cluster[{ang}]", replay=fuzz_cluster):
            def body():
                it = Interp()
                n = nvar("n", 1)
                x = rarr("x", n)
                y = A.as_sarr(it.call(m_conf.cluster, (x, ang)))
                s.used(it)
                s.true("same length", y.ndim == 1 and A.same_dim(y.shape[0], n))
                k = gen(n)
                yk, xk, x0 = T.lift(y.get(k)), T.app("x", k), T.app("x", T.ZERO)
                s.integer("a whole number of turns is added", (yk - xk) / ang)
                s.true("within half a turn above the first value", T.cmp_("le", yk - x0, T.Fraction(ang, 2)))
                s.true("within half a turn below the first value", T.cmp_("le", x0 - yk, T.Fraction(ang, 2)))
                s.eq("the first value stays", y.get(0), x0)
                s.true("input unmodified", not it.frame_violations)
                s.sanity()

            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


def run_rnormed(s):
    with s.unit("r_normed"):
        def body():
            it = Interp()
            n = nvar("n", 1)
            R, f = carr("R", n), rarr("f", n)
            y = A.as_sarr(it.call(m_rob.r_normed, (R, f)))
            y2 = A.as_sarr(Interp().call(m_rob.r_normed, (A.binop("*", carr("R", n), T.var("c")), f)))
            s.used(it)
            k = gen(n)
            sh = Interp().call(m_rob.sigma_hat, (R,))
            s.eq("residual times factor over robust scale", y.get(k), Cx(T.app("R_re", k), T.app("R_im", k)) * T.app("f", k) / sh)
            s.true("input unmodified", not it.frame_violations)
            s.sanity()

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def run_interp(s):
    with s.unit("complex_interp"):
        def body():
            it = Interp()
            n, m = nvar("n", 1), nvar("m", 1)
            x, xp = rarr("x", n), rarr("xp", m)
            fp = carr("fp", m)
            y = A.as_sarr(it.call(m_util.complex_interp, (x, xp, fp)))
            s.used(it)
            k = gen(n)
            yr = A.as_sarr(Interp().call(m_util.complex_interp, (x, xp, fp.real)))
            yi = A.as_sarr(Interp().call(m_util.complex_interp, (x, xp, fp.imag)))
            s.eq("real and imaginary parts are interpolated separately", y.get(k), Cx.of(T.lift(yr.get(k))) + Cx(T.ZERO, T.lift(yi.get(k))))
            s.sanity()

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


# ---------------------------------------------------------------- nearestSPD
def fuzz_spd(v=None):
    import warnings
    rng = np.random.default_rng(5)
    for k in range(200):
        n = int(rng.integers(1, 6))
        M = rng.normal(size=(n, n))
        kind = k % 4
        if kind == 0:
            X = M @ M.T                                   # positive definite
        elif kind == 1:
            X = M[:, :1] @ M[:, :1].T                     # semi-definite, rank one
        elif kind == 2:
            X = (M + M.T) / 2
            np.fill_diagonal(X, np.abs(np.diag(X)) + 0.5)    # variances positive, correlations too large
        else:
            X = M + n * np.eye(n)                         # not symmetric
        X0 = X.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            P = m_conf.nearestSPD(X)
        if not np.array_equal(X, X0):
            return f"nearestSPD changed its argument {X0.tolist()}"
        tol = 1e-9 * (np.abs(X).max() + 1e-300)
        if np.abs(P - P.T).max() > tol:
            return f"nearestSPD({X0.tolist()}) = {P.tolist()} is not symmetric"
        if np.linalg.eigvalsh((P + P.T) / 2).min() < -tol:
            return f"nearestSPD({X0.tolist()}) = {P.tolist()} has a negative eigenvalue"
        B = (X + X.T) / 2
        lam, U = np.linalg.eigh(B)
        N = (U * np.maximum(lam, 0)) @ U.T
        if np.abs(P - N).max() > tol * 10:
            return f"nearestSPD({X0.tolist()}) = {P.tolist()} is not the nearest semi-definite matrix {N.tolist()}"
    return ("no failing input", 200)


class Nearest:
    """nearestSPD of a symbolic n x n matrix; invariant of its loop: the matrix is Higham's, its diagonal raised by d >= 0"""
    K = 100

    def __init__(self, s, unrolled=False):
        self.s = s
        self.n = nvar("n", 1)
        self.A = rarr("A", self.n, self.n)
        self.loops = 0
        self.it = Interp(loop_contracts={} if unrolled else {("nearestSPD", 0): self.loop})
        f = self.A.snap()
        B = SArr((self.n, self.n), lambda i: (T.lift(f(i)) + T.lift(f(i[::-1]))) / 2, "f")
        from .. import npmodel
        self.svd = npmodel.MODELS[id(np.linalg.svd)][1](Interp(), B)
        b = B.snap()
        S, V = self.svd[1].snap(), self.svd[2].snap()
        H = lambda i: T.sum_(self.n, lambda k: T.lift(V((A.dim(k), i[0]))) * T.lift(S((A.dim(k),))) * T.lift(V((A.dim(k), i[1]))))
        # H, symmetric by its definition, is symmetrised so that both orders of its factors are covered
        self.higham = SArr((self.n, self.n), lambda i: (T.lift(b(i)) + H(i)) / 2, "f")

    def raised(self, d):
        h = self.higham.snap()
        return SArr((self.n, self.n), lambda i: T.lift(h(i)) + T.ite(T.eq_(T.lift(i[0]), T.lift(i[1])), d, T.ZERO), "f", owner="local")

    def loop(self, it, node, seq, env):
        import ast
        s, v = self.s, env.vars
        self.loops += 1
        names = {q.id for b in node.body for q in ast.walk(b) if isinstance(q, ast.Name)}
        stored = {q.id for b in node.body for q in ast.walk(b) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
        mats = [q for q in names if isinstance(v.get(q), SArr) and v[q].ndim == 2 and v[q] is not self.A and A.as_sarr(v[q]).owner != "input"]
        counters = [q for q in stored if isinstance(v.get(q), (int, Poly)) and not isinstance(v.get(q), bool)]
        if seq is not None or len(mats) != 1 or len(counters) != 1:
            raise Unsupported("the loop invariant of nearestSPD does not fit the loop's variables")
        m, c = mats[0], counters[0]
        i, j = gen(self.n, "i"), gen(self.n, "j")
        s.eq("before the loop: Higham's matrix", A.as_sarr(v[m]).get(i, j), self.higham.get(i, j))
        s.true("before the loop: counter in its range", T.and_(T.cmp_("le", 0, v[c]), T.cmp_("le", v[c], self.K)))
        # an arbitrary iteration
        d = T.var("d", nonneg=True)
        k = nvar("steps")
        ENGINE.push(T.cmp_("le", k, self.K))
        if not ENGINE.decide(T.bapp("first")):
            ENGINE.push(T.cmp_("le", 1, k))
        else:
            ENGINE.push(T.eq_(k, T.ZERO))
            k = T.ZERO
        v[m], v[c] = self.raised(d), k
        if not it.truth(it.ev(node.test, env)):
            s.true("the loop is only left on a matrix found positive definite", ENGINE.resolve(T.bapp("posdef", A.arr_key(A.as_sarr(v[m])))) is True)
            s.true("and after at least one adjustment", T.cmp_("le", 1, v[c]))
            self.spd = True
            return
        it.block(node.body, env)
        i, j = gen(self.n, "i"), gen(self.n, "j")
        a = A.as_sarr(v[m])
        with using([T.not_(T.eq_(i, j))]):
            s.eq("invariant: off the diagonal Higham's matrix", a.get(i, j), self.higham.get(i, j))
        s.true("invariant: the diagonal is only raised", T.cmp_("le", self.higham.get(i, i) + d, a.get(i, i)))
        s.eq("invariant: by the same amount everywhere", T.lift(a.get(i, i)) - self.higham.get(i, i), T.lift(a.get(j, j)) - self.higham.get(j, j))
        s.true("termination: the counter grows", T.cmp_("le", k + 1, v[c]))
        s.true("termination: the counter is bounded", T.cmp_("le", v[c], self.K))
        raise Cut()

    def post(self, r):
        s = self.s
        r = A.as_sarr(r)
        s.true("square, of the size of the argument", r.ndim == 2 and all(A.same_dim(q, self.n) for q in r.shape))
        i, j = gen(self.n, "i"), gen(self.n, "j")
        with using([T.not_(T.eq_(i, j))]):
            s.eq("symmetric", r.get(i, j), r.get(j, i))
        if getattr(self, "spd", False):
            with using([T.not_(T.eq_(i, j))]):
                s.eq("off the diagonal Higham's nearest matrix", r.get(i, j), self.higham.get(i, j))
            s.true("on the diagonal at least Higham's", T.cmp_("le", self.higham.get(i, i), r.get(i, i)))
            s.true("found positive definite", ENGINE.resolve(T.bapp("posdef", A.arr_key(r))) is True)
        else:
            with using([T.not_(T.eq_(i, j))]):
                s.eq("not converged: no correlations", r.get(i, j), T.ZERO)
            s.eq("not converged: the variances given", r.get(i, i), T.app("A", i, i))
        s.true("nothing passed in is overwritten", not self.it.frame_violations)
        s.sanity()


def run_spd(s):
    s.lemma("polar_psd")
    with s.unit("_is_PD"):
        def body():
            n = nvar("n", 1)
            a = rarr("A", n, n)
            it = Interp()
            r = it.call(m_conf._is_PD, (a,))
            s.used(it)
            s.true("true exactly when the Cholesky factorisation exists", r is (ENGINE.resolve(T.bapp("posdef", A.arr_key(a))) is True))
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
    with s.unit("nearestSPD", replay=fuzz_spd, seconds=60):
        def body():
            w = Nearest(s)
            r = w.it.call(m_conf.nearestSPD, (w.A,))
            s.used(w.it)
            if w.loops != 1:
                raise Unsupported("nearestSPD does not run its loop once")
            w.post(r)
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
