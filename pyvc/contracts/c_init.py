"""_slvinit: exactly the valid samples are fitted, whatever marks the missing ones; record length and reference time."""
from __future__ import annotations

from ..lib import *  # noqa
from .. import npmodel

Bunch = m_util.Bunch
DEFAULTS = dict(nodsatlint=0, nodsatnone=0, gwchlint=0, gwchnone=0, nodiagn=0)


def given():
    """what _process_opts hands over (a selection; every key is to be recorded as given)"""
    return dict(cnstit=["names"], ordercnstit="PE", infer=None, conf_int=True, linci=True, notrend=False, nodsatlint=["flag"], gwchnone=["flag2"],
                rmin=T.var("rmin"), white=T.var("white"), newopts=Bunch(marker=1), RunTimeDisp=False, epoch=["epoch"])


def fuzz(v=None):
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fuzz_()


def fuzz_():
    rng = np.random.default_rng(4)
    old = m_solve._normalize_time
    m_solve._normalize_time = lambda t, e: t
    try:
        for trial in range(300):
            n = int(rng.integers(4, 30))
            two = bool(trial % 2)
            t = 730000.0 + np.arange(n) / 24 if trial % 3 else 730000 + np.sort(rng.random(n)) * 5
            bad = {k: rng.random(n) < rng.choice([0, 0.15]) for k in "tuv"}
            for k in "tuv":
                if trial % 5 == 0:
                    bad[k][-1] = True
            allbad = bad["t"] | bad["u"] | (bad["v"] if two else False)
            if (~allbad).sum() < 3 or (~bad["t"]).sum() < 3:
                continue
            src = {"t": t, "u": rng.normal(size=n), "v": rng.normal(size=n)}
            arg = {}
            for k in "tuv":
                x = src[k].copy()
                how = int(rng.integers(5))
                if how == 0:
                    x[bad[k]] = np.nan
                elif how == 1:
                    x[bad[k]] = np.inf
                elif how == 2:
                    x = np.ma.array(np.where(bad[k], -99999.0, x), mask=bad[k])
                elif how == 3:
                    h = bad[k] & (rng.random(n) < 0.5)
                    x = np.ma.array(np.where(h, np.nan, np.where(bad[k], 7.0, x)), mask=bad[k] & ~h)
                else:
                    x = np.where(bad[k], np.nan, x)
                    x = list(x)
                arg[k] = x
            keep = {k: np.ma.getdata(arg[k]).copy() if not isinstance(arg[k], list) else list(arg[k]) for k in "tuv"}
            try:
                tin, tt, uu, vv, tref, lor, elor, opt = m_solve._slvinit(arg["t"], arg["u"], arg["v"] if two else None, 40.0, **dict(given(), epoch="python", rmin=1, white=False))
            except Exception as e:
                return f"_slvinit raises {type(e).__name__}: {e} for t={arg['t']!r}, u={arg['u']!r}, v={arg['v'] if two else None!r}"
            g = ~allbad
            tg = t[~bad["t"]]
            d = np.diff(tg)
            equi = np.var(np.unique(d)) < np.finfo(float).eps
            r = tg if equi else t[g]
            what = f"_slvinit(t={arg['t']!r}, u={arg['u']!r}, v={arg['v'] if two else None!r})"
            for nm, got, want in (("valid times", tin, tg), ("t", tt, t[g]), ("u", uu, src["u"][g]), ("v", vv, src["v"][g] if two else None)):
                if (want is None) != (got is None) or want is not None and (isinstance(got, np.ma.MaskedArray) or not np.array_equal(got, want)):
                    return f"{what}: {nm} = {got!r}, expected {want!r}"
            L = r.max() - r.min()
            if not np.allclose([tref, lor, elor], [(r[0] + r[-1]) / 2, L, L * len(r) / (len(r) - 1)], rtol=1e-12, atol=1e-9) or bool(opt["equi"]) != bool(equi):
                return f"{what}: reference time {tref}, length {lor}, {elor}, equispaced {opt['equi']}"
            for k in "tuv":
                if not np.array_equal(np.asarray(np.ma.getdata(arg[k]), float), np.asarray(keep[k], float), equal_nan=True):
                    return f"{what}: {k} was overwritten"
    finally:
        m_solve._normalize_time = old
    return ("no failing input", 300)


def inp(nm, n, masked):
    npmodel.MISSING.add(nm)
    return SArr((n,), lambda idx: T.app(nm, T.lift(idx[0])), "f", owner="input", is_ma=masked,
                mask=(lambda idx: T.bapp("masked:" + nm, T.lift(idx[0]))) if masked else None)


def bad(nm, i, masked):
    b = T.bapp("bad:" + nm, T.lift(i))
    return T.or_(b, T.bapp("masked:" + nm, T.lift(i))) if masked else b


def run(s):
    for two in (False, True):
        for mt in (False, True):
            for mv in ((False, False), (True, True)) + (((True, False), (False, True)) if two else ()):
                unit(s, two, mt, mv)
    rejected(s)


def unit(s, two, mt, mv):
    w = "masked" if mt else "plain"
    names = "uv" if two else "u"
    nm = f"_slvinit[{w} times, " + ", ".join(f"{'masked' if m else 'plain'} {k}" for k, m in zip(names, mv)) + "]"
    with s.unit(nm, replay=fuzz, seconds=60):
        def body():
            n = nvar("n", 2)
            t = inp("t", n, mt)
            x = {k: inp(k, n, m) for k, m in zip(names, mv)}
            kw = given()
            calls = []

            def normalize(it, tt, e=None):
                s.note("the times given are converted once, with the epoch given", tt is t and e == kw["epoch"])
                calls.append(1)
                return inp("tn", n, mt)
            it = Interp(contracts={"utide._time_conversion._normalize_time": normalize})
            tin, tt, uu, vv, tref, lor, elor, opt = it.call(m_solve._slvinit, (t, x["u"], x.get("v"), T.var("lat")), dict(kw))
            s.used(it)
            s.note("times converted once", len(calls) == 1)
            B = lambda f: SArr((n,), lambda idx: f(T.lift(idx[0])), "b")

            def badt(i):
                return T.or_(T.bapp("bad:tn", i), T.bapp("masked:tn", i)) if mt else T.bapp("bad:tn", i)

            def badx(i):
                return T.or_(*[bad(k, i, m) for k, m in zip(names, mv)])
            plain = {k: SArr((n,), lambda idx, k=k: T.app(k, T.lift(idx[0])), "f") for k in ("tn", "u", "v")}
            s.eq("the valid times, in order", tin, A.compress(plain["tn"], B(lambda i: T.not_(badt(i)))))
            s.true("valid times are plain numbers", not A.as_sarr(tin).is_ma)
            for what, got, src in (("times", tt, "tn"), ("u", uu, "u")) + ((("v", vv, "v"),) if two else ()):
                got = A.as_sarr(got)
                s.true(f"{what} fitted are plain numbers", not got.is_ma)
                s.eq(f"{what} fitted: exactly the valid samples, in order", got, spec(plain[src], n, badt, badx))
            if not two:
                s.true("no second component", vv is None)
            eq = opt["equi"]
            r = A.as_sarr(tin) if eq is True or ENGINE.resolve(eq) is True else A.as_sarr(tt)
            m = T.lift(r.shape[0])
            first, last = r.get(0), r.get(A.dim(m - 1))
            s.eq("reference time: middle of the record", T.lift(tref) * 2, first + last)
            L = npmodel.m_ptp(it, r)
            s.eq("record length: largest minus smallest time", lor, L)
            s.eq("effective record length: number of samples times mean spacing", T.lift(elor) * (m - 1), L * m)
            s.true("vector flag", opt["twodim"] is two)
            for k, v in kw.items():
                if k == "epoch":
                    continue
                s.note(f"option {k} recorded as given", opt[k] is v)
            for k, v in DEFAULTS.items():
                if k not in kw:
                    s.note(f"option {k} defaults to {v}", opt[k] == v)
            s.true("nothing passed in is written", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def spec(a, n, badt, badx):
    """a at the valid samples: those at missing times removed, then those with a missing value"""
    B = lambda f: SArr((n,), lambda idx: f(T.lift(idx[0])), "b")
    gt = B(lambda i: T.not_(badt(i)))
    return A.compress(A.compress(a, gt), A.compress(B(lambda i: T.not_(badx(i))), gt))


FLAGS = ("conf_int", "linci", "notrend", "nodsatlint", "nodsatnone", "gwchlint", "gwchnone", "white", "nodiagn", "RunTimeDisp", "prefilt")


def any_options():
    """options of any value: flags are arbitrary truth values, so a rejection cannot depend on them unnoticed"""
    kw = given()
    kw.update({k: T.bapp("option:" + k) for k in FLAGS})
    return kw


def fuzz_rejected(v=None):
    rng = np.random.default_rng(12)
    n = 0
    for trial in range(120):
        kw = dict(given(), epoch="python", rmin=float(rng.choice([0.5, 1, 2])))
        kw.update({k: bool(rng.integers(2)) for k in FLAGS if k != "prefilt"})
        if trial == 0:
            kw.update({k: True for k in FLAGS if k != "prefilt"})
        m, k = int(rng.integers(2, 60)), int(rng.integers(1, 9))
        t, z = 730000.0 + np.arange(m) / 24, rng.normal(size=m + k)
        t2, z2 = t[:m // 2 * 2].reshape(2, -1), z[:m // 2 * 2].reshape(2, -1)
        for what, a in {"latitude missing": (t, z[:m], z[:m] if trial % 2 else None, None),
                        "u longer than the times": (t, z, None, 40.0), "u shorter": (t[1:], z[:m], None, 40.0), "both of other length": (t, z, z, 0.0),
                        "v of other length": (t, z[:m], z, 40.0), "one v": (t, z[:m], z[:1], 40.0), "two-dimensional": (t2, z2, None, 40.0),
                        "two-dimensional vector": (t2, z2, z2, 0.0), "numbers": (730000.0, 1.0, None, 40.0)}.items():
            n += 1
            try:
                m_solve._slvinit(*a, **kw)
            except Exception:
                continue
            return f"_slvinit accepts {what}: shapes {[np.shape(x) for x in a[:3]]}, latitude {a[3]}, options {kw}"
    return ("no failing input", n)


def rejected(s):
    lat = T.var("lat")
    cases = {"latitude missing": lambda n, k: (rarr("t", n), rarr("u", n), None, None),
             "latitude of a vector series missing": lambda n, k: (rarr("t", n), rarr("u", n), rarr("v", n), None),
             "times and u of different length": lambda n, k: (rarr("t", n), rarr("u", n + k), None, lat),
             "u shorter than the times": lambda n, k: (rarr("t", n + k), rarr("u", n), None, lat),
             "u and v longer than the times": lambda n, k: (rarr("t", n), rarr("u", n + k), rarr("v", n + k), lat),
             "u and v of different length": lambda n, k: (rarr("t", n), rarr("u", n), rarr("v", n + k), lat),
             "v shorter than u": lambda n, k: (rarr("t", n + k), rarr("u", n + k), rarr("v", n), lat),
             "two-dimensional times and u": lambda n, k: (rarr("t", n, k), rarr("u", n, k), None, lat),
             "two-dimensional times, u and v": lambda n, k: (rarr("t", n, k), rarr("u", n, k), rarr("v", n, k), lat),
             "two-dimensional u": lambda n, k: (rarr("t", n), rarr("u", n, k), None, lat),
             "two-dimensional v": lambda n, k: (rarr("t", n), rarr("u", n), rarr("v", n, k), lat),
             "single numbers": lambda n, k: (T.var("t"), T.var("u"), None, lat)}
    for what, mk in cases.items():
        with s.unit(f"_slvinit[{what}: rejected whatever the options]", replay=fuzz_rejected):
            def body():
                n, k = nvar("n", 2), nvar("k", 1)
                it = Interp(contracts={"utide._time_conversion._normalize_time": lambda it, x, e=None: x})
                it.call(m_solve._slvinit, mk(n, k), any_options())
            for facts, (kind, r) in s.paths(body):
                s.true("ValueError", kind == "exc" and isinstance(getattr(r, "exc", r), ValueError))
