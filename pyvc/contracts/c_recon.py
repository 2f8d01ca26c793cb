"""_reconstruct: superposition of exactly the constituents asked for, at exactly the valid times."""
from __future__ import annotations

from ..lib import *  # noqa
from ..objs import SName
from .c_diag import energy, noise, pe, snr

Bunch = m_util.Bunch
FLAGNAMES = ["nodsatlint", "nodsatnone", "gwchlint", "gwchnone"]


def Ecx(t, f, l):
    """basis value at time t of the constituent with frequency f and table index l (contract of ut_E)"""
    return Cx(T.app("E_re", t, f, l), T.app("E_im", t, f, l))


def mkcoef(twodim, n, trend, ci=True):
    c = Bunch()
    for k in (["Lsmaj", "Lsmin", "theta", "g"] if twodim else ["A", "g"]):
        c[k] = rarr(k, n)
    for k in (["Lsmaj_ci", "Lsmin_ci"] if twodim else ["A_ci"]) if ci else []:
        c[k] = rarr(k, n, nonneg=True)
    c["name"] = SArr((n,), lambda idx: SName(T.app("nm", T.lift(idx[0]), sort="I", nonneg=True)), "O", owner="input")
    for k in ("umean", "vmean") if twodim else ("mean",):
        c[k] = T.var(k)
    if trend:
        for k in ("uslope", "vslope") if twodim else ("slope",):
            c[k] = T.var(k)
    opt = Bunch(twodim=twodim, nodiagn=0, notrend=not trend, prefilt=["prefilt"])
    for i, k in enumerate(FLAGNAMES):
        opt[k] = ["flag", i]
    c["aux"] = Bunch(frq=rarr("frq", n), lind=rarr("lind", n, sort="I", nonneg=True), reftime=T.var("tref"), lat=T.var("lat"), opt=opt)
    return c


def c_ut_E(s, coef):
    def f(it, t, tref, frq, lind, lat, ngflgs, prefilt):
        s.eq("basis evaluated with the reference time of the solution", tref, T.var("tref"))
        s.eq("basis evaluated at the latitude of the solution", lat, T.var("lat"))
        s.true("basis evaluated with the flags of the solution",
               len(ngflgs) == 4 and all(a is coef["aux"]["opt"][k] for a, k in zip(ngflgs, FLAGNAMES)))
        t, frq, lind = A.as_sarr(t), A.as_sarr(frq), A.as_sarr(lind)

        def el(idx):
            return Ecx(t.get(idx[0]), frq.get(idx[1]), lind.get(idx[1]))
        return SArr((t.shape[0], frq.shape[0]), el, "c")
    return f


def contribution(twodim, k, t):
    """what constituent k adds at time t, complex (velocity) or real"""
    E = Ecx(t, T.app("frq", k), T.app("lind", k, sort="I", nonneg=True))
    if not twodim:
        z = E * Cx(*T.cis(-deg(T.app("g", k)))) * Cx(T.app("A", k), T.ZERO)
        return Cx(z.re, T.ZERO)
    L, l, th, g = (T.app(x, k) for x in ("Lsmaj", "Lsmin", "theta", "g"))
    ap = Cx(*T.cis(deg(th - g))) * Cx((L + l) / 2, T.ZERO)
    am = Cx(*T.cis(deg(th + g))) * Cx((L - l) / 2, T.ZERO)
    return E * ap + E.conj() * am


def included(sel, twodim, n, k, minsnr, minpe):
    if sel == "all":
        return True
    if sel == "list":
        return T.bapp("asked", T.app("nm", k, sort="I", nonneg=True))
    return T.and_(T.cmp_("ge", snr(twodim, k), minsnr), T.cmp_("ge", pe(twodim, n, k), minpe))


class Asked:
    """the list of names asked for: membership is an arbitrary predicate of the name"""

    _symobj = True

    def contains(self, x):
        if not isinstance(x, SName):
            raise Unsupported(f"membership of {x!r}")
        return T.bapp("asked", x.idx)


def run(s):
    for tw in (False, True):
        for trend in (False, True):
            for sel in ("all", "list", "thresholds", "no diagnostics"):
                unit(s, tw, trend, sel)


def fuzz(v=None):
    from oracle import ref
    rng = np.random.default_rng(5)
    N = 240
    for trial in range(N):
        tw, trend, sel = bool(trial % 2), bool(trial // 2 % 2), ("all", "list", "thresholds", "nodiagn")[trial // 4 % 4]
        n = int(rng.integers(1, 7)) if trial % 40 else int(rng.integers(20, 60))
        lind = rng.permutation([k for k in range(1, ref.NC) if k not in ref.FRACTIONAL])[:n]
        c = Bunch()
        for k in (["Lsmaj", "Lsmin", "theta", "g"] if tw else ["A", "g"]):
            c[k] = rng.random(n) * (360 if k in ("theta", "g") else 1) + 0.01
            c[k + "_ci"] = rng.random(n) + 0.01
        c["name"] = np.array([ref.NAMES[k] for k in lind], dtype=object)
        for k in ("umean", "vmean", "uslope", "vslope", "mean", "slope"):
            c[k] = rng.normal()
        tref, lat = 730000.5, 40.0
        c["aux"] = Bunch(frq=ref.lin_freqs(tref)[lind], lind=lind, reftime=tref, lat=lat,
                         opt=Bunch(twodim=tw, nodiagn=int(sel == "nodiagn"), notrend=not trend, prefilt=[], nodsatlint=0, nodsatnone=0, gwchlint=0, gwchnone=0))
        t = tref + rng.uniform(-100, 100, int(rng.integers(1, 6)))
        good = rng.random(len(t) + 3) < 2
        good[rng.permutation(len(good))[:3]] = False
        names = [c["name"][j] for j in range(n) if rng.random() < 0.5] + ["XX"]
        names = [names[j] for j in rng.permutation(len(names))]
        if trial % 3 == 0:
            names = names + names[:2]                   # a name asked for twice
        elif trial % 7 == 0:
            names = []
        snr_, pe_ = (0, 0)
        if sel in ("thresholds", "nodiagn"):
            E = (c["Lsmaj"] ** 2 + c["Lsmin"] ** 2) if tw else c["A"] ** 2
            snr_, pe_ = [(2, 5), (0, float(rng.uniform(1, 60))), (float(rng.uniform(0.1, 20)), 0), (50.0, 0.5),
                         (0, float((100 * E / E.sum()).max()) * 0.99999), (float(rng.uniform(0.5, 3)), float(100 / n))][trial // 16 % 6]
        u, w = m_rec._reconstruct(t, good, c, False, names if sel == "list" else None, snr_, pe_)
        E = (c["Lsmaj"] ** 2 + c["Lsmin"] ** 2) if tw else c["A"] ** 2
        V = ((c["Lsmaj_ci"] ** 2 + c["Lsmin_ci"] ** 2) if tw else c["A_ci"] ** 2) / 1.96 ** 2
        use = np.ones(n, bool)
        if sel == "list":
            use = np.isin(c["name"], names)
        elif sel == "thresholds":
            use = (E / V >= snr_) & (100 * E / E.sum() >= pe_)
        B = ref.basis(t, tref, lind, lat)
        r = np.pi / 180
        if tw:
            ap = (c["Lsmaj"] + c["Lsmin"]) / 2 * np.exp(1j * r * (c["theta"] - c["g"]))
            am = (c["Lsmaj"] - c["Lsmin"]) / 2 * np.exp(1j * r * (c["theta"] + c["g"]))
            z = (B * ap + B.conj() * am)[:, use].sum(1) + c["umean"] + 1j * c["vmean"]
            z = z + trend * (c["uslope"] + 1j * c["vslope"]) * (t - tref)
        else:
            z = (B * c["A"] * np.exp(-1j * r * c["g"])).real[:, use].sum(1) + c["mean"] + trend * c["slope"] * (t - tref)
        want = np.full(len(good), np.nan, dtype=complex)
        want[good] = z
        got = u + 1j * (w if w is not None else np.where(good, 0, np.nan))
        ok = (w is not None) == tw and got.shape == want.shape and np.array_equal(np.isnan(u), ~good) and (w is None or np.array_equal(np.isnan(w), ~good)) \
            and np.allclose(got[good], want[good], atol=1e-6)
        if not ok:
            return f"_reconstruct, {'vector' if tw else 'scalar'}, trend={trend}, {sel}, names {list(c['name'])}, asked {names}, valid {good.tolist()}: {got} instead of {want}"
    return ("no failing input", N)


def unit(s, tw, trend, sel):
    w = f"{'vector' if tw else 'scalar'},{'trend' if trend else 'no trend'},{sel}"
    with s.unit(f"_reconstruct[{w}]", replay=fuzz, seconds=60):
        def body():
            n, m = nvar("n", 1), nvar("m", 1)
            c = mkcoef(tw, n, trend)
            good = SArr((m,), lambda idx: T.bapp("good", T.lift(idx[0])), "b", owner="input")
            it = Interp(contracts={"utide.harmonics.ut_E": c_ut_E(s, c)})
            nt = A.as_sarr(A.getitem(rarr("tin", m), good))        # the valid times
            nt.owner = "input"
            minsnr, minpe = T.var("min_SNR"), T.var("min_PE")
            constit = None
            if sel == "all":
                minsnr, minpe = 0, 0
            elif sel == "list":
                constit = Asked()
            elif sel == "no diagnostics":
                c["aux"]["opt"]["nodiagn"] = 1
            else:
                ENGINE.push(T.not_(T.and_(T.eq_(minsnr, 0), T.eq_(minpe, 0))))
            u, v = it.call(m_rec._reconstruct, (nt, good, c, False, constit, minsnr, minpe))
            s.used(it)
            s.true("second component exactly for a vector solution", (v is not None) == tw)
            i = gen(m, "i")
            t = T.app("tin", i)
            g = T.bapp("good", i)
            kind = "all" if sel == "no diagnostics" else sel

            def term(part):
                return T.sum_(n, lambda k: T.lift(included(kind, tw, n, k, minsnr, minpe)) * getattr(contribution(tw, k, t), part))
            for nm, x, part in (("u", u, "re"),) + ((("v", v, "im"),) if tw else ()):
                x = A.as_sarr(x)
                s.true(f"{nm}: one value per time given", x.ndim == 1 and A.same_dim(x.shape[0], m))
                base = T.var((nm if tw else "") + "mean")
                if trend:
                    base = base + T.var((nm if tw else "") + "slope") * (t - T.var("tref"))
                with using([g]):
                    s.eq(f"{nm} at a valid time: included constituents, mean" + (" and trend" if trend else ""), x.get(i), term(part) + base)
                with using([T.not_(g)]):
                    s.eq(f"{nm} is NaN at a missing time", x.get(i), T.NAN)
            s.true("solution, times and mask unmodified", not it.frame_violations)
            s.sanity()

        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


# --------------------------------------------------------------------------- the public wrapper
def fuzz_wrapper(v=None):
    rng = np.random.default_rng(11)
    calls = []

    def stub(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
        calls.append((np.array(t), np.array(goodmask), coef, constit, min_SNR, min_PE))
        r = np.full(goodmask.shape, np.nan)
        r[goodmask] = t
        return r, (2 * r if coef else None)
    old = m_rec._reconstruct
    m_rec._reconstruct = stub
    try:
        for trial in range(60):
            m = int(rng.integers(1, 7))
            base = rng.uniform(700000, 740000, m)
            t = base.copy()
            miss = rng.random(m) < 0.4
            how = rng.integers(0, 3, m) if trial % 3 == 0 else rng.integers(0, 2, m)
            t[miss & (how == 0)] = np.nan
            t[miss & (how == 1)] = np.inf
            if trial % 3 == 0:
                t = np.ma.array(t, mask=miss & (how == 2))
            ep = (None, "python", "matlab", "1970-01-01")[trial % 4]
            ofs = {"python": 0, "matlab": -366, "1970-01-01": 719163}
            good = ~miss
            want = base + ofs[ep] if ep else base
            if ep is None:
                if trial % 3 == 0:
                    continue
                ms = np.round((base - 719163) * 86400000).astype("int64")
                t = ms.astype("datetime64[ms]")
                t[miss] = np.datetime64("NaT")
                want = ms / 86400000 + 719163
            two, con, snr_, pe_ = {"x": 1} if trial % 5 == 0 else {}, ["M2"], float(trial), 2.0 * trial
            out = utide.reconstruct(t, two, epoch=ep, verbose=False, constit=con, min_SNR=snr_, min_PE=pe_)
            a = calls.pop()
            ok = np.array_equal(a[1], good) and np.allclose(a[0], want[good], atol=1e-7) and a[2] is two and a[3] is con and a[4] == snr_ and a[5] == pe_
            r = out["u"] if two else out["h"]
            ok = ok and np.array_equal(np.isnan(r), ~good) and np.allclose(r[good], want[good], atol=1e-7) and (not two or np.allclose(out["v"][good], 2 * want[good], atol=1e-6)) and ("h" in out) == (not two) and ("v" in out) == bool(two)
            ok = ok and out["t_in"] is t and out["epoch"] == ep and out["constit"] is con and out["min_SNR"] == snr_ and out["min_PE"] == pe_
            if not ok:
                return f"reconstruct(t={t!r}, epoch={ep!r}): times handed on {a[0]}, valid {a[1]}, expected {want[good]}, {good}, result {dict(out)}"
    finally:
        m_rec._reconstruct = old
    return ("no failing input", 60)


def run_wrapper(s):
    from .. import npmodel
    for two in (False, True):
        for masked in (False, True):
            for ep in ("python", "other"):
                with s.unit(f"reconstruct[{'vector' if two else 'scalar'},{'masked' if masked else 'plain'} times,epoch {ep}]", replay=fuzz_wrapper):
                    def body():
                        m = nvar("m", 1)
                        npmodel.MISSING.add("tin")
                        npmodel.MISSING.add("tn")

                        def mk(nm, owner):
                            return SArr((m,), lambda idx: T.app(nm, T.lift(idx[0])), "f", owner=owner, is_ma=masked,
                                        mask=(lambda idx: T.bapp("masked", T.lift(idx[0]))) if masked else None)
                        t = mk("tin", "input")
                        tn = t if ep == "python" else mk("tn", "result")
                        nm = "tin" if ep == "python" else "tn"
                        coef, con = Bunch(marker=1), ["M2"]
                        mins, minp = T.var("min_SNR"), T.var("min_PE")
                        epoch = "python" if ep == "python" else "2000-01-01"
                        got = []

                        def normalize(it, x, e=None):
                            s.note("the times given are converted once, with the epoch given", x is t and e == epoch)
                            return tn

                        def rec(it, tt, good, coef_, verbose, constit, min_SNR, min_PE):
                            got.append((tt, good))
                            s.note("the solution and the selection are handed on", coef_ is coef and constit is con)
                            s.eq("SNR threshold handed on", min_SNR, mins)
                            s.eq("PE threshold handed on", min_PE, minp)
                            return rarr("ru", m), (rarr("rv", m) if two else None)
                        it = Interp(contracts={"utide._time_conversion._normalize_time": normalize,
                                               "utide._reconstruct._reconstruct": rec})
                        out = it.call(utide.reconstruct, (t, coef), dict(epoch=epoch, verbose=False, constit=con, min_SNR=mins, min_PE=minp))
                        s.used(it)
                        s.true("computed once", len(got) == 1)
                        tt, good = got[0]

                        def valid(i):
                            return T.and_(T.not_(T.bapp("bad:" + nm, i)), T.not_(T.bapp("masked", i)) if masked else True)
                        i = gen(m, "i")
                        gi = A.as_sarr(good)
                        s.true("one flag per time", gi.ndim == 1 and A.same_dim(gi.shape[0], m))
                        s.eq("a time is used exactly when it is finite and unmasked", T.lift(gi.get(i)), T.lift(valid(i)))
                        want = A.compress(SArr((m,), lambda idx: T.app(nm, T.lift(idx[0])), "f"), SArr((m,), lambda idx: valid(T.lift(idx[0])), "b"))
                        s.true("the valid times are plain numbers", not A.as_sarr(tt).is_ma)
                        s.eq("exactly the valid times are handed on, in order", tt, want)
                        if two:
                            s.true("vector result", set(out) == {"t_in", "epoch", "constit", "min_SNR", "min_PE", "t_mpl", "u", "v"})
                            s.eq("u", out["u"], rarr("ru", m))
                            s.eq("v", out["v"], rarr("rv", m))
                        else:
                            s.true("scalar result", set(out) == {"t_in", "epoch", "constit", "min_SNR", "min_PE", "t_mpl", "h"})
                            s.eq("h", out["h"], rarr("ru", m))
                        s.note("arguments echoed", out["t_in"] is t and out["epoch"] == epoch and out["constit"] is con
                               and out["min_SNR"] is mins and out["min_PE"] is minp)
                        with using([valid(i)]):
                            s.eq("t_mpl is the converted time", A.as_sarr(out["t_mpl"]).get(i), T.app(nm, i))
                        s.true("nothing passed in is written", not it.frame_violations)
                        s.sanity()
                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)
    with s.unit("reconstruct[two-dimensional times rejected]", replay=fuzz_wrapper):
        def body2():
            m, k = nvar("m", 1), nvar("k", 1)
            it = Interp(contracts={"utide._time_conversion._normalize_time": lambda it, x, e=None: x})
            it.call(utide.reconstruct, (rarr("tin", m, k), Bunch()), dict(epoch="python", verbose=False))
        for facts, (kind, r) in s.paths(body2):
            s.true("ValueError", kind == "exc" and isinstance(getattr(r, "exc", r), ValueError))
