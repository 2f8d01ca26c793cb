"""The weight functions of robustfit, and the normalisation of residuals."""
from __future__ import annotations

from ..lib import *  # noqa


def fuzz(name):
    def f(v=None):
        fn = m_rob.wfuncdict[name]
        rng = np.random.default_rng(8)
        for k in range(80):
            r = rng.normal(size=int(rng.integers(1, 40))) * 10.0 ** rng.integers(-9, 3)
            r[0] = 0.0
            if k % 2:
                r = r * np.exp(1j * rng.uniform(0, 7, len(r)))
            w = np.asarray(fn(r.copy()))
            a = np.abs(r)
            o = np.argsort(a)
            if w.shape != r.shape or np.iscomplexobj(w) or (w < 0).any() or (w > 1 + 1e-12).any() or abs(w[0] - 1) > 1e-7 \
                    or (np.diff(w[o]) > 1e-9).any() or not np.allclose(w, np.asarray(fn(a)), rtol=1e-9):
                return f"{name} weights of residuals {r.tolist()[:6]}: {w.tolist()[:6]}"
        return ("no failing input", 80)
    return f


def one(s, name):
    fn = m_rob.wfuncdict[name]
    for form in ("real", "complex"):
        with s.unit(f"weight function {name}[{form}]", replay=fuzz(name),
                    samplers={"r": lambda a, g: float(g.normal() * 10.0 ** g.integers(-2, 2))}):
            def body():
                it = Interp()
                n = nvar("n", 1)
                r = rarr("r", n) if form == "real" else carr("r", n)
                w = A.as_sarr(it.call(fn, (r,)))
                s.used(it)
                s.true("one weight per residual", w.ndim == 1 and A.same_dim(w.shape[0], n))
                k = gen(n)
                wk = T.lift(w.get(k))
                z = r.get(k)
                s.true("real", not isinstance(wk, Cx))
                s.true("weight >= 0", T.cmp_("le", 0, wk))
                s.true("weight <= 1", T.cmp_("le", wk, 1))
                # depends on the size only: a value with the same modulus gets the same weight
                mod = T.abs_(z) if form == "real" else T.sqrt_(z.re * z.re + z.im * z.im)
                rr = T.var("size", nonneg=True)
                w2 = A.as_sarr(Interp().call(fn, (A.SArr((n,), lambda idx: rr, "f"),))).get(k)
                wsize = T.subst(T.lift(w2), {T.the_atom(rr): mod})
                s.eq("depends on the size only", wk, wsize)
                s.sanity()

            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)
    with s.unit(f"weight function {name}[zero residual]", replay=fuzz(name)):
        def body0():
            it = Interp()
            n = nvar("n", 1)
            w = A.as_sarr(it.call(fn, (A.SArr((n,), lambda idx: T.ZERO, "f"),)))
            k = gen(n)
            wk = T.lift(w.get(k))
            val = T.closed_value(wk)
            if val is None:
                s.eq("weight of a zero residual is one", wk, T.ONE)
            else:
                # logistic and andrews replace a zero by sqrt(machine epsilon): one to within 1e-8
                s.note("weight of a zero residual is one (to 1e-8)", abs(float(val) - 1) < 1e-8, str(val), "closed term")

        for facts, (kind, r) in s.paths(body0):
            if kind == "exc":
                s.true(f"no exception ({r})", False)
    with s.unit(f"weight function {name}[monotone]", replay=fuzz(name),
                samplers={"a": lambda a, g: float(abs(g.normal())), "h": lambda a, g: float(abs(g.normal()))}):
        def body1():
            it = Interp()
            n = nvar("n", 1)
            a, h = T.var("a", nonneg=True), T.var("h", nonneg=True)
            b = a + h
            wa = A.as_sarr(it.call(fn, (A.SArr((n,), lambda idx: a, "f"),)))
            wb = A.as_sarr(it.call(fn, (A.SArr((n,), lambda idx: b, "f"),)))
            k = gen(n)
            s.true("never grows with the size", monotone_goal(name, T.lift(wa.get(k)), T.lift(wb.get(k))))

        for facts, (kind, r) in s.paths(body1):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def monotone_goal(name, wa, wb):
    return T.cmp_("le", wb, wa)


def run(s):
    for name in sorted(m_rob.wfuncdict):
        one(s, name)
    with s.unit("weight function table"):
        s.note("nine documented weight functions", set(m_rob.wfuncdict) == {"andrews", "bisquare", "cauchy", "fair", "huber",
               "logistic", "ols", "talwar", "welsch"} and set(m_rob.tune_defaults) == set(m_rob.wfuncdict))
    s.assumptions.append("sin(x)/x and tanh(x)/x do not grow on (0, pi) and (0, inf); 0 <= tanh x <= x, sin x <= x for x >= 0")
