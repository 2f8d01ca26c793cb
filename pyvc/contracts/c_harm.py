"""linearized_freqs, FUV and ut_E against the harmonic tables: all 146 constituents, all times, all latitudes."""
from __future__ import annotations

from oracle import ref

from ..lib import *  # noqa
from ..prove import simplify

NC = ref.NC
HALF = T.pconst(T.Fraction(1, 2))


def q(x):
    return T.lift(float(x))


# ---------------------------------------------------------------- contracts of the callees
def ar(j, t):
    return T.app(f"astro{j}", T.lift(t))


def de(j, t):
    return T.app(f"ader{j}", T.lift(t))


def c_astron(it, jd):
    """the contract of ut_astron proved in c_astron: column k depends on time k only; here left uninterpreted"""
    jd = A.as_sarr(it.call(np.atleast_1d, (jd,)))
    it.call(jd_check, (jd,)) if False else None
    n = jd.shape[0]

    def pick(f):
        def g(idx):
            i = T.lift(idx[0])
            if not i.is_const():
                raise Unsupported("generic row of the astronomical variables")
            return f(int(i.const()), jd.get(idx[1]))
        return g
    return SArr((6, n), pick(ar), "f"), SArr((6, n), pick(de), "f")


CONTRACTS = {"utide.astronomy.ut_astron": c_astron}


# ---------------------------------------------------------------- specification
def freq_spec(k, tref):
    """cycles per hour: the rate of the astronomical argument at the reference time"""
    if k in ref.PARENTS:
        return sum((q(c) * freq_spec(j, tref) for j, c in ref.PARENTS[k]), T.ZERO)
    return sum((q(ref.DOOD[k, j]) * de(j, tref) for j in range(6)), T.ZERO) / 24


def arg_spec(k, t):
    """cycles"""
    if k in ref.PARENTS:
        return sum((q(c) * arg_spec(j, t) for j, c in ref.PARENTS[k]), T.ZERO)
    return sum((q(ref.DOOD[k, j]) * ar(j, t) for j in range(6)), T.ZERO) + q(ref.SEMI[k])


def cycles(x):
    """exp(2 pi i x)"""
    c, s = T.cis(2 * T.PI * T.lift(x))
    return Cx(c, s)


def sat_sum(k, t, slat):
    z = Cx(T.ONE, T.ZERO)
    for j in range(len(ref.S_AMP)):
        if ref.S_ICONST[j] != k:
            continue
        r = q(ref.S_AMP[j])
        if ref.S_LAT[j] == 1:
            r = r * q(0.36309) * (1 - 5 * slat * slat) / slat
        elif ref.S_LAT[j] == 2:
            r = r * q(2.59808) * slat
        ph = sum((q(ref.S_DEL[j, i]) * ar(3 + i, t) for i in range(3)), T.ZERO) + q(ref.S_PH[j])
        z = z + cycles(ph) * Cx(r, T.ZERO)
    return z


def nodal_spec(k, t, slat, memo):
    if k in memo:
        return memo[k]
    if k in ref.PARENTS:
        F, U = T.ONE, T.ZERO
        for j, c in ref.PARENTS[k]:
            f, u = nodal_spec(j, t, slat, memo)
            F = F * T.ppow(f, q(abs(c)))
            U = U + q(c) * u
    else:
        z = sat_sum(k, t, slat)
        F = T.sqrt_(z.re * z.re + z.im * z.im)
        U = T.arg_(z) / (2 * T.PI)
    memo[k] = (F, U)
    return F, U


FLAGS = {("exact", 0): (False, False), ("linear", 0): (True, False), ("none", 0): (False, True)}


def flags(nodal, phase):
    n = {"exact": (False, False), "linear": (True, False), "none": (False, True)}[nodal]
    p = {"exact": (False, False), "linear": (True, False), "raw": (False, True)}[phase]
    return [n[0], n[1], p[0], p[1]]


class Col:
    """table index of the generic column: a concrete index that the contract varies over all 146 constituents"""

    def __init__(self, nc, c):
        self.k = 0
        self.c = c

        def el(idx):
            if T.lift(idx[0]) == c:
                A.CTX.touched = True
                return self.k
            raise Unsupported("the result for one constituent reads the table index of another")
        self.arr = SArr((nc,), el, "i", owner="input")

    def set(self, k):
        self.k = k
        A.CTX.epoch += 1


def fuzz(v=None):
    rng = np.random.default_rng(3)
    bad = []
    for trial in range(40):
        nodal = ("exact", "linear", "none")[trial % 3]
        phase = ("exact", "linear", "raw")[trial // 3 % 3]
        n = int(rng.integers(1, 5))
        t = 730000 + rng.uniform(-4e4, 4e4, n)
        tref = float(730000 + rng.uniform(-1000, 1000))
        lat = float([rng.uniform(-90, 90), rng.uniform(-6, 6), 0.0, 5.0, -5.0, 90.0][trial % 6])
        lind = rng.permutation([k for k in range(NC) if k not in ref.FRACTIONAL])
        ph = {"exact": "Greenwich", "linear": "linear_time", "raw": "raw"}[phase]
        nd = {"exact": True, "linear": "linear_time", "none": False}[nodal]
        F, U, V = m_harm.FUV(t, tref, lind, lat, flags(nodal, phase))
        f, u, w = ref.FUV(t, tref, lind, lat, nd, ph)
        F, U, V = (np.broadcast_to(x, f.shape) for x in (F, U, V))
        E = m_harm.ut_E(t, tref, ref.lin_freqs(tref)[lind], lind, lat, flags(nodal, phase), [])
        d = np.maximum.reduce([np.abs(F - f), np.abs(U - u), np.abs((V - w) - np.round(V - w)),
                               np.abs(E - f * np.exp(2j * np.pi * (u + w)))])
        d = np.where(np.isnan(d), np.inf, d)
        if d.max() > 1e-5:
            i, j = np.unravel_index(int(np.argmax(d)), d.shape)
            return (f"{ref.NAMES[lind[j]]} at t={t[i]!r}, tref={tref!r}, lat={lat!r}, nodal={nodal}, phase={phase}: "
                    f"F={F[i, j]!r} U={U[i, j]!r} V={V[i, j]!r} instead of {f[i, j]!r} {u[i, j]!r} {w[i, j]!r} (V modulo 1)")
    return ("no failing input", 40)


def fuzz_lin(v=None):
    rng = np.random.default_rng(3)
    for trial in range(20):
        tref = float(730000 + rng.uniform(-4e4, 4e4))
        f, w = m_harm.linearized_freqs(tref), ref.lin_freqs(tref)
        if f.shape != w.shape or not np.allclose(f, w, rtol=1e-11, atol=1e-14):
            j = int(np.argmax(np.abs(f - w)))
            return f"linearized_freqs({tref!r}): {ref.NAMES[j]} {f[j]!r} instead of {w[j]!r}"
    return ("no failing input", 20)


def allof(s, name, items):
    """one obligation for all constituents"""
    if getattr(s, "frames_only", False):
        return
    from ..prove import Outcome, PROVED
    how = set()
    for lab, o in items:
        if o.status != PROVED:
            o.detail = f"{lab}: {o.detail}"
            s.record(name, o)
            return
        how.add(o.how)
    s.record(name, Outcome(PROVED, "+".join(sorted(how))))


def whole(s, x):
    """outcome of: x is a whole number"""
    from ..prove import PROVED, Outcome
    if getattr(s, "frames_only", False):
        return Outcome(PROVED, "")
    n = len(s.obl)
    s.integer("tmp", x)
    d = s.obl.pop()
    assert len(s.obl) == n
    return Outcome(d["status"], d["by"], d["detail"])


def run_lin(s):
    with s.unit("linearized_freqs", replay=fuzz_lin, seconds=60):
        def body():
            it = Interp(contracts=CONTRACTS)
            tref = T.var("tref")
            f = A.as_sarr(it.call(m_harm.linearized_freqs, (tref,)))
            s.used(it)
            s.true("one frequency per constituent", f.ndim == 1 and A.same_dim(f.shape[0], NC))
            allof(s, "rate of the argument at the reference time, all constituents",
                  ((ref.NAMES[k], s.prover.zero(T.lift(A.elem(f, (k,))) - freq_spec(k, tref))) for k in range(NC)))
            s.true("tables unmodified", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def run_fuv(s, nodals=("exact", "linear", "none"), phases=("exact", "linear", "raw")):
    for nodal in nodals:
        for phase in phases:
            with s.unit(f"FUV[nodal={nodal},phase={phase}]", replay=fuzz, seconds=200):
                def body():
                    T.LAZY_SQRT = True
                    it = Interp(contracts=CONTRACTS)
                    n, nc = nvar("n", 1), nvar("nc", 1)
                    t, tref, lat = rarr("t", n), T.var("tref"), T.var("lat")
                    i, c = gen(n, "i"), gen(nc, "c")
                    col = Col(nc, c)
                    F, U, V = it.call(m_harm.FUV, (t, tref, col.arr, lat, flags(nodal, phase)))
                    s.used(it)
                    F, U, V = A.as_sarr(F), A.as_sarr(U), A.as_sarr(V)
                    for nm, x in (("F", F), ("U", U), ("V", V)):
                        s.true(f"{nm}: broadcasts to one value per time and constituent", x.ndim == 2 and A.same_dim(x.shape[1], nc)
                               and (A.same_dim(x.shape[0], n) or (nm != "V" and A.same_dim(x.shape[0], 1))))
                    tk = T.app("t", i)
                    tn = {"exact": tk, "linear": tref, "none": None}[nodal]
                    row = lambda x: 0 if A.same_dim(x.shape[0], 1) and not A.same_dim(n, 1) else i   # noqa: E731
                    slat = sind(simplify(effective_lat(lat)))
                    memo = {}

                    def nod():
                        for k in range(NC):
                            col.set(k)
                            f, u = (T.ONE, T.ZERO) if nodal == "none" else nodal_spec(k, tn, slat, memo)
                            o = s.prover.zero(T.lift(F.get(row(F), c)) - f)
                            if o.status == "proved":
                                o = s.prover.zero(T.lift(U.get(row(U), c)) - u)
                            yield ref.NAMES[k], o

                    def argm():
                        for k in range(NC):
                            if k in ref.FRACTIONAL and phase != "raw":
                                continue
                            col.set(k)
                            x = T.lift(V.get(i, c))
                            if phase == "raw":
                                yield ref.NAMES[k], s.prover.zero(x - 24 * (tk - tref) * freq_spec(k, tref))
                            elif phase == "exact":
                                yield ref.NAMES[k], whole(s, x - arg_spec(k, tk))
                            else:
                                yield ref.NAMES[k], whole(s, x - arg_spec(k, tref) - 24 * (tk - tref) * freq_spec(k, tref))
                    allof(s, "factor and phase correction, all constituents", nod())
                    allof(s, "astronomical argument, all constituents (except M7 unless raw)", argm())
                    if phase != "raw":
                        for k in sorted(ref.FRACTIONAL):
                            col.set(k)
                            x = T.lift(V.get(i, c))
                            w = arg_spec(k, tk) if phase == "exact" else arg_spec(k, tref) + 24 * (tk - tref) * freq_spec(k, tref)
                            s.integer(f"argument of {ref.NAMES[k]} modulo half a cycle", 2 * (x - w))
                            with s.finding("M7-argument-jumps"):
                                s.integer(f"argument of {ref.NAMES[k]} modulo one cycle", x - w)
                    s.true("arguments and tables unmodified", not it.frame_violations)
                    s.sanity()

                try:
                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)
                finally:
                    T.LAZY_SQRT = False
    s.assumptions.append("the tables loaded by utide are compared entry by entry with spec/tables.json through the proved formulas; "
                         "sin of the latitude is non-zero for |lat| >= 5 degrees; numpy.fmod/angle/abs over the reals")


def effective_lat(lat):
    """latitudes nearer the equator than 5 degrees count as 5 degrees in the same hemisphere"""
    return T.ite(T.cmp_("lt", T.abs_(lat), 5), T.ite(T.cmp_("lt", lat, 0), T.pconst(-5), T.pconst(5)), lat)


def run_E(s):
    for tform in ("array", "scalar"):
        for nodal in ("exact", "linear", "none"):
            for phase in ("exact", "linear", "raw"):
                with s.unit(f"ut_E[{tform},nodal={nodal},phase={phase}]", replay=fuzz):
                    def body():
                        it = Interp(contracts={"utide.harmonics.FUV": lambda it, *a: c_FUV(it, s, *a)})
                        n, nc = nvar("n", 1), nvar("nc", 1)
                        t = rarr("t", n) if tform == "array" else T.var("t0")
                        tref, lat = T.var("tref"), T.var("lat")
                        frq, lind = rarr("frq", nc), rarr("lind", nc, sort="I", nonneg=True)
                        fl = flags(nodal, phase)
                        c = gen(nc, "c")
                        s.args = (t, tref, lind, lat, fl)
                        E = A.as_sarr(it.call(m_harm.ut_E, (t, tref, frq, lind, lat, fl, [])))
                        s.used(it)
                        if tform == "scalar":
                            n, i, tk = 1, 0, T.var("t0")
                        else:
                            i = gen(n, "i")
                            tk = T.app("t", i)
                        s.true("always two-dimensional: times by constituents", E.ndim == 2 and A.same_dim(E.shape[0], n) and A.same_dim(E.shape[1], nc))
                        if nodal == "none" and phase == "raw":
                            w = cycles(24 * (tk - tref) * T.app("frq", c))
                        else:
                            l = T.app("lind", c, sort="I", nonneg=True)
                            w = cycles(T.app("U", tk, l) + T.app("V", tk, l)) * Cx(T.app("F", tk, l), T.ZERO)
                        s.eq("E = F exp(2 pi i (U + V))", E.get(i, c), w)
                        s.true("arguments unmodified", not it.frame_violations)
                        s.sanity()

                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)


def c_FUV(it, s, t, tref, lind, lat, fl):
    """contract of FUV: entry (i, c) is a function of t[i], lind[c] (and of tref, lat and the flags)"""
    t0, r0, l0, la0, f0 = s.args
    s.eq("FUV called with the reference time given", tref, r0)
    s.eq("FUV called with the latitude given", lat, la0)
    s.true("FUV called with the flags given", [bool(x) for x in fl] == [bool(x) for x in f0])
    t, lind = A.as_sarr(t), A.as_sarr(lind)
    sh = (t.shape[0], lind.shape[0])

    def f(nm):
        return SArr(sh, lambda idx: T.app(nm, t.get(idx[0]), lind.get(idx[1])), "f")
    return f("F"), f("U"), f("V")


def run(s):
    run_lin(s)
    run_E(s)
    run_fuv(s)
