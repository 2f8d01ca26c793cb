"""Concrete contracts of the public API, one function per property: props.cNN(rng, i) runs one generated case
and raises Fail when the real code in /repo breaks the property on it."""
import datetime as dtm

import numpy as np

from . import ref
from .common import (usable, Case, Fail, Prep, Skip, angdiff, call, check, clone, close, close_ang, compare_params, deep_eq,
                     idx_of, must_raise, params, recon, reconstruct, solve, synth, utide)

Bunch = utide.utilities.Bunch
EPS_T = 1e-7


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def other_times(rng, c):
    T = c.T
    t = np.concatenate([c.t[:: max(1, len(c.t) // 40)],
                        c.t[0] + T * rng.uniform(-1.5, 2.5, 25),
                        c.prep.tref + rng.uniform(-1, 1, 3)])
    rng.shuffle(t)
    return t


# ------------------------------------------------------------------ C01
def c01(rng, i):
    """exact recovery + equality with the reference least-squares model, at sample and other times"""
    exact = bool(rng.integers(2))
    c = Case(rng, noise=0.0 if exact else None, gaps=rng.random() < 0.3, main=i % ref.NC if i % ref.NC not in ref.FRACTIONAL and
             ref.FREQ[i % ref.NC] > 0 and rng.random() < 0.8 else None, infer=rng.random() < 0.2)
    kw = {}
    if rng.random() < 0.4:
        kw = dict(conf_int="linear", white=bool(rng.integers(2)))
    if rng.random() < 0.3:
        kw["order_constit"] = "frequency"
    coef = c.solve(**kw)
    f = c.fit()
    scale = np.sqrt(np.mean(np.abs(c.truth) ** 2)) + 1e-300
    sel = {}
    if rng.random() < 0.5:
        sel = dict(constit=list(coef["name"]), min_SNR=2)
    got = recon(c, c.t, coef, **sel)
    close("fit", got, f.predict(c.t), EPS_T, f"reconstruction at the sample times [{c.describe()}]", scale)
    if c.noise == 0.0:
        close("recovery", got, c.truth, EPS_T, f"exact record not reproduced [{c.describe()}]", scale)
    t2 = other_times(rng, c)
    want = f.predict(t2)
    sc2 = scale + np.max(np.abs(want))
    close("extrapolation", recon(c, t2, coef, **sel), want, 3e-7, f"reconstruction at other times [{c.describe()}]", sc2)
    if i % 40 == 7:
        # a long reconstruction, compared at some of its times
        n = int(pick(rng, [2500, 5000, 12000, 40000])) + int(rng.integers(2))
        t3 = c.prep.tref + np.sort(rng.uniform(-400, 400, n))
        k = np.unique(np.concatenate([rng.integers(0, n, 200), [0, 1, n - 2, n - 1], np.arange(0, n, 1000), np.arange(999, n, 1000),
                                      2 ** np.arange(5, int(np.log2(n))), 2 ** np.arange(5, int(np.log2(n))) - 1]))
        want = f.predict(t3[k])
        close("long", recon(c, t3, coef, **sel)[k], want, 1e-6, f"reconstruction at {n} times [{c.describe()}]", scale + np.max(np.abs(want)))
    # residual of the ordinary fit is data minus reconstruction: orthogonal to the basis
    r = (c.u + (1j * c.v if c.twod else 0) - got)[~c.miss]
    g = np.abs((f.A / f.scale).conj().T @ r)
    check("residual", np.all(g <= 1e-6 * (np.linalg.norm(f.x) + 1e-300)), f"data minus reconstruction is not the fit's residual [{c.describe()}]")
    return c.describe()


# ------------------------------------------------------------------ C02
def c02(rng, i):
    c = Case(rng, gaps=rng.random() < 0.4, infer=rng.random() < 0.3, max_const=8)
    coef = c.solve(method="ols") if rng.random() < 0.5 else c.solve()
    f = c.fit()
    scale = np.sqrt(np.mean(np.abs(f.x) ** 2)) + 1e-300
    close("tref", coef["aux"]["reftime"], f.prep.tref, 1e-9, f"reference time [{c.describe()}]", 1.0)
    y = synth(coef, c.twod, f.prep.t, None, c.nodal, c.phase, c.lat)
    r = f.x - y
    g = np.abs((f.A / f.scale).conj().T @ r)
    check("orthogonality", np.all(g <= 1e-6 * (np.linalg.norm(f.x) + 1e-300)),
          f"residual not orthogonal to the model functions: max {g.max():.3g} at column {int(g.argmax())} of {len(g)} [{c.describe()}]")
    close("optimum", y, f.fitted, EPS_T, f"fitted series [{c.describe()}]", scale)
    mean, slope = f.mean_slope()
    keys = ("umean", "uslope", "vmean", "vslope") if c.twod else ("mean", "slope")
    for k in keys:
        check("trend-presence", (k in coef) == (c.trend or "mean" in k), f"{k} {'present' if k in coef else 'absent'} with trend={c.trend}")
    msc = scale
    if c.twod:
        close("mean", coef["umean"] + 1j * coef["vmean"], mean, EPS_T, "mean", msc)
        if c.trend:
            close("slope", coef["uslope"] + 1j * coef["vslope"], slope, EPS_T, "slope", msc / f.prep.lor)
    else:
        close("mean", coef["mean"], mean.real, EPS_T, "mean", msc)
        if c.trend:
            close("slope", coef["slope"], slope.real, EPS_T, "slope", msc / f.prep.lor)
    order = idx_of(coef, [ref.NAMES[k] for k in f.order()])
    compare_params("coefficients", params(coef, c.twod, order), f.params(), c.twod, np.max(np.abs(f.params()[0])))
    return c.describe()


# ------------------------------------------------------------------ C03
def ellipse_ranges(p, twod, eps=1e-9):
    for a in p:
        check("finite", np.all(np.isfinite(a)), f"non-finite parameter {a}")
    if twod:
        L, l, th, g = p
        check("axes", np.all(L >= np.abs(l) * (1 - 1e-12)) and np.all(L >= 0), f"semi-major {L} vs semi-minor {l}")
        check("theta-range", np.all(th >= 0) and np.all(th <= 180), f"orientation {th}")
    else:
        A, g = p
        check("amplitude", np.all(A >= 0), f"amplitude {A}")
    check("phase-range", np.all(g >= 0) and np.all(g <= 360), f"phase {g}")


def c03(rng, i):
    # direct conversion, all quadrants, zeros included
    from utide import ellipse_params
    f = usable(ellipse_params, "ut_cs2cep", 1)
    n = int(rng.integers(1, 40))
    if f is not None:
        vals = [0.0, 1.0, -1.0, 0.5, -2.0]
        mode = int(rng.integers(4))
        M = rng.normal(size=(n, 4)) * 10.0 ** rng.uniform(-10, 8)
        if mode == 1:
            M = rng.choice(vals, size=(n, 4))
        elif mode == 2:
            M[:, int(rng.integers(4))] = 0
            M[:, int(rng.integers(4))] = 0
        elif mode == 3:   # rectilinear or circular
            z = rng.normal(size=(n, 2))
            M = np.column_stack([z, z[:, ::-1] * [1, -1]]) if rng.integers(2) else np.column_stack([z, 2 * z])
        if rng.integers(2):
            M = M * 10.0 ** rng.uniform(-12, 8, size=(n, 1))
        sc = np.abs(M).max(axis=1) + 1e-300
        for twod in (True, False):
            cols = M if twod else M[:, :2]
            form = int(rng.integers(2))
            args = (cols,) if form else tuple(cols[:, k].copy() for k in range(cols.shape[1]))
            L, l, th, g = call(f, *args)
            if twod:
                ellipse_ranges((L, l, th, g), True)
                want = cols.T
            else:
                ellipse_ranges((L, g), False)
                check("scalar", np.all(l == 0) and np.all(th == 0), "scalar case must have zero minor axis and orientation")
                want = (cols[:, 0], cols[:, 1], np.zeros(n), np.zeros(n))
            for a, b, nm in zip(ref.from_ellipse(L, l, th, g), want, ("Xu", "Yu", "Xv", "Yv")):
                close("lossless", a / sc, b / sc, 1e-11, f"{nm} rebuilt from parameters (relative to the row's size); twod={twod}", 1.0)
    if i % 3 == 0:
        # a record with prescribed coefficients
        c = Case(rng, noise=0.0, nodal=pick(rng, [True, False]))
        if rng.random() < 0.5:
            m = c.m_true.copy()
            if c.twod:
                k = int(rng.integers(len(c.nr_lind)))
                m[k] = 0 if rng.integers(2) else m[k].real
            y = c.A_t @ m
            c.u = y.real
            c.v = y.imag if c.twod else None
        coef = c.solve()
        p = params(coef, c.twod)
        ellipse_ranges(p, c.twod)
        fit = c.fit()
        XY = fit.XY()
        ix = idx_of(coef, [ref.NAMES[k] for k in fit.order()])
        pp = params(coef, c.twod, ix)
        if c.twod:
            got = ref.from_ellipse(*pp)
        else:
            z = np.zeros(len(ix))
            got = ref.from_ellipse(pp[0], z, z, pp[1])[:2]
        sc = max(np.abs(a).max() for a in XY if a is not None)
        for a, b, nm in zip(got, XY, ("Xu", "Yu", "Xv", "Yv")):
            close("record", a, b, EPS_T, f"{nm} of the fitted harmonic [{c.describe()}]", sc)
    return f"n={n} coefficients {M[0].tolist() if f is not None else None} ..."


# ------------------------------------------------------------------ C04
def rand_times(rng, n):
    mode = int(rng.integers(5))
    if mode == 0:
        return rng.uniform(690000, 770000, n)
    if mode == 1:
        return rng.uniform(-2e5, 2e6, n)
    if mode == 2:
        return np.floor(rng.uniform(600000, 800000, n)) + rng.integers(0, 24, n) / 24
    if mode == 3:
        return ref.EPOCH_1899 + rng.uniform(-3, 3, n)
    return rng.uniform(1, 1000, n)


def cyc(d):
    return np.abs(d - np.round(d))


def c04(rng, i):
    from utide import astronomy
    ut_astron = usable(astronomy, "ut_astron", 1)
    if ut_astron is None:
        raise Skip("no ut_astron")
    n = int(pick(rng, [1, 2, 3, 7, 30, 200] if i % 25 else [1500, 7000]))
    t = rand_times(rng, n)
    if rng.random() < 0.2:
        t = np.floor(t)
    arg = t if rng.random() < 0.7 else (list(t) if n > 1 else float(t[0]))
    a, d = call(ut_astron, arg)
    A, D = ref.astro(t)
    check("shape", np.shape(a) == (6, n) and np.shape(d) == (6, n), f"shapes {np.shape(a)} {np.shape(d)}")
    tol = 1e-9 + 1e-12 * np.abs(A).max()
    names = ("tau", "s", "h", "p", "np", "pp")
    for k in range(6):
        e = cyc(a[k] - A[k])
        j = int(e.argmax())
        check("longitude", e[j] <= tol, f"{names[k]} at t={t[j]!r}: {a[k][j]!r} cycles, expected {A[k][j] % 1!r} mod 1")
        e = np.abs(d[k] - D[k])
        j = int(e.argmax())
        check("rate", e[j] <= 1e-12, f"rate of {names[k]} at t={t[j]!r}: {d[k][j]!r}, expected {D[k][j]!r}")
    check("reduced", np.all(np.abs(a) < 3), "longitudes not reduced")
    j = int(rng.integers(n))
    a1, d1 = call(ut_astron, float(t[j]))
    close("elementwise", angdiff(a1[:, 0], a[:, j], 1.0), np.zeros(6), 1e-8, f"single time vs element {j}", 1.0)
    close("elementwise", d1[:, 0], d[:, j], 1e-14, f"single time rate vs element {j}", 1.0)
    it = int(np.floor(t[j]))
    ai, di = call(ut_astron, np.array([it, it + 1]))
    Ai, Di = ref.astro(np.array([it, it + 1.0]))
    check("integer-times", np.all(cyc(ai - Ai) <= tol), f"integer-typed times {it}")
    # through the public API: frequency of a constituent is the rate of its argument at the reference time
    if i % 8 == 0:
        c = Case(rng, noise=0.1)
        coef = c.solve()
        lf = ref.lin_freqs(coef["aux"]["reftime"])
        close("frequency", coef["aux"]["frq"], [lf[ref.INDEX[x]] for x in coef["name"]], 1e-11, "constituent frequencies", 1.0)
    return f"n={n} t0={t[0]!r}"


# ------------------------------------------------------------------ C05
def flags_of(nodal, phase):
    return [int(nodal == "linear_time"), int(nodal is False), int(phase == "linear_time"), int(phase == "raw")]


def c05(rng, i):
    from utide import harmonics
    if not usable(harmonics, "ut_E", 1, 2, 3, 4, 5, 6, 7):
        raise Skip("no ut_E")
    nodal = pick(rng, [True, True, "linear_time", False])
    phase = pick(rng, ["Greenwich", "Greenwich", "linear_time", "raw"])
    n = int(pick(rng, [1, 2, 5, 20, 61]))
    t = pick(rng, [rng.uniform(690000, 770000, n), rng.uniform(600000, 900000, n), 733000 + np.arange(n) / 24.0])
    tref = float(pick(rng, [np.mean(t), t[0], t[0] + 400.3, 700000.5]))
    lat = float(pick(rng, [rng.uniform(-90, 90), rng.uniform(-7, 7), 0.0, 5.0, -5.0, 90.0, -90.0, 4.9999, -1e-7]))
    lind = [i % ref.NC] + [int(k) for k in rng.integers(0, ref.NC, int(rng.integers(0, 12)))]
    if i % 5 == 0:
        lind = list(range(ref.NC))
    lind = [k for k in lind if k not in ref.FRACTIONAL or (phase == "raw" and True)] or [47]
    freq = ref.lin_freqs(tref)[lind]
    where = f"tref={tref!r} lat={lat!r} nodal={nodal!r} phase={phase!r} n={n}"
    E = call(harmonics.ut_E, t, tref, freq, np.array(lind), lat, flags_of(nodal, phase), [])
    W = ref.basis(t, tref, lind, lat, nodal, phase)
    check("shape", np.shape(E) == (n, len(lind)), f"basis shape {np.shape(E)} [{where}]")
    tol = 1e-7 if phase == "Greenwich" else 1e-6
    e = np.abs(E - W) / (np.abs(W) + 1e-9)
    j = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
    check("basis", e[j] <= tol, f"{ref.NAMES[lind[j[1]]]} at t={t[j[0]]!r}: {E[j]!r}, expected {W[j]!r} [{where}]")
    k = int(rng.integers(n))
    E1 = call(harmonics.ut_E, t[k:k + 1], tref, freq, np.array(lind), lat, flags_of(nodal, phase), [])
    close("pointwise", E1[0], E[k], 1e-9, f"value at one time depends on the rest of the record [{where}]", np.abs(W).max())
    if usable(harmonics, "FUV", 1, 2, 3, 4, 5):
        fl = flags_of(nodal, phase)
        F, U, V = call(harmonics.FUV, t, tref, np.array(lind), lat, fl)
        rF, rU, rV = ref.FUV(t, tref, lind, lat, nodal, phase)
        F, U, V = (np.broadcast_to(x, rF.shape) for x in (F, U, V))
        j = int(np.argmax(np.abs(F - rF)))
        close("factor", F, rF, 1e-7, f"amplitude factors [{where}]")
        d = cyc(U + V - rU - rV).max()
        check("argument", d <= 1e-6, f"arguments differ by {d:.3g} cycles [{where}]")
        lin = nodal if isinstance(nodal, bool) else True
        if nodal is False:
            check("off", np.all(F == 1) and np.all(U == 0), "nodal corrections off must give 1 and 0")
    # known finding: M7 (table coefficient 3.5) - argument must be continuous in time
    if i % 50 == 0:
        k7 = ref.INDEX["M7"]
        tt = 733000 + np.arange(0, 40) / 24.0
        E = call(harmonics.ut_E, tt, tt[0], np.array([ref.lin_freqs(tt[0])[k7]]), np.array([k7]), 40.0, flags_of(False, "Greenwich"), [])[:, 0]
        W = ref.basis(tt, tt[0], [k7], 40.0, False, "Greenwich")[:, 0]
        check("M7-halfcycle-basis", np.all(np.minimum(np.abs(E - W), np.abs(E + W)) < 1e-6), "M7 argument wrong even modulo half a cycle")
        if np.any(np.abs(E - W) > 1e-6):
            raise Fail("M7-argument-jumps", "the argument of M7 (3.5 x M2) jumps by half a cycle whenever M2's reduced argument wraps")
    if i % 4 == 0:
        c = Case(rng, main=i // 4 % ref.NC if i // 4 % ref.NC not in ref.FRACTIONAL and ref.FREQ[i // 4 % ref.NC] > 0 else None, noise=0.0)
        coef = c.solve()
        y = synth(coef, c.twod, c.t, None, c.nodal, c.phase, c.lat)
        close("record", y, c.truth, 3e-7, f"record built from the tables not recovered [{c.describe()}]", np.sqrt(np.mean(np.abs(c.truth) ** 2)))
    return where


# ------------------------------------------------------------------ C06
def same_solution(key, a, b, twod, amp, what, tol=2e-6, tshift=0.0):
    check(key, list(a["name"]) == list(b["name"]), f"{what}: constituents {list(a['name'])} vs {list(b['name'])}")
    compare_params(key, params(a, twod), params(b, twod), twod, amp, tol)
    for k in ("mean", "umean", "vmean", "slope", "uslope", "vslope"):
        check(key, (k in a) == (k in b), f"{what}: {k} present in one only")
        if k in a:
            close(key, a[k], b[k], tol, f"{what}: {k}", amp)
    for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci", "SNR", "PE"):
        check(key, (k in a) == (k in b), f"{what}: {k} present in one only")
    close(key, a["aux"]["reftime"], b["aux"]["reftime"], 1e-7, f"{what}: reference time", 1.0)


def to_dt64(minutes, unit="ms"):
    base = np.datetime64("0000-12-31T00:00", "m")
    return (base + minutes.astype("timedelta64[m]")).astype(f"datetime64[{unit}]")


def time_forms(rng, minutes):
    """representations of the same instants: (name, t, epoch)"""
    import pandas as pd
    days = minutes / 1440.0
    d64 = to_dt64(minutes)
    pyd = [x.astype("datetime64[us]").item() for x in d64]
    forms = [("datetime64[ms]", d64, None), ("datetime64[s]", d64.astype("datetime64[s]"), None),
             ("datetime64[m]", d64.astype("datetime64[m]"), None), ("datetime64[us]", d64.astype("datetime64[us]"), None),
             ("datetime objects", np.array(pyd, dtype=object), None), ("list of datetimes", list(pyd), None),
             ("python", days, "python"), ("matlab", days + 366, "matlab"), ("python list", list(days), "python")]
    lo, hi = d64.min(), d64.max()
    if lo > np.datetime64("1700-01-01") and hi < np.datetime64("2250-01-01"):
        forms.append(("datetime64[ns]", d64.astype("datetime64[ns]"), None))
        forms.append(("pandas index", pd.DatetimeIndex(d64.astype("datetime64[ns]")), None))
        forms.append(("pandas index values", pd.to_datetime(pyd).values, None))
    y = int(rng.integers(1600, 2300))
    ep = dtm.date(y, int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    rel = days - ep.toordinal()
    forms += [("date string", rel, ep.isoformat()), ("date", rel, ep), ("datetime", rel, dtm.datetime(ep.year, ep.month, ep.day)),
              ("datetime64 epoch", rel, np.datetime64(ep))]
    ep2 = dtm.datetime(ep.year, ep.month, ep.day, 6, 30)
    forms.append(("datetime with hours", days - (ep.toordinal() + 6.5 / 24), ep2))
    forms.append(("string with hours", days - (ep.toordinal() + 6.5 / 24), ep2.isoformat()))
    return forms


def c06(rng, i):
    from utide import _time_conversion as tc
    # direct conversion
    n = int(rng.integers(1, 30))
    mins = rng.integers(1440 * 366, 1440 * 1100000, n)
    if rng.random() < 0.5:
        mins = rng.integers(1440 * 650000, 1440 * 800000, n)
    mins = np.sort(mins)
    days = mins / 1440.0
    if usable(tc, "_normalize_time", 1, 2) and usable(tc, "_normalize_time", 1):
        for name, t, ep in time_forms(rng, mins):
            got = call(tc._normalize_time, t, ep)
            close("conversion", got, days, 1e-9, f"{name}, epoch {ep!r}: first instant {mins[0]} min", 1.0)
        ms = rng.integers(-10**13, 10**13, n)
        x = np.datetime64("1970-01-01", "ms") + ms.astype("timedelta64[ms]")
        close("milliseconds", call(tc._normalize_time, x), 719163 + ms / 86400000.0, 1e-9, "millisecond instants", 1.0)
        want = 719163 + ms / 86400000.0
        close("milliseconds", call(tc._normalize_time, x.astype("datetime64[us]")), want, 1e-9, "millisecond instants as datetime64[us]", 1.0)
        near = np.abs(ms) < 9 * 10**12
        if near.any():
            close("milliseconds", call(tc._normalize_time, x[near].astype("datetime64[ns]")), want[near], 1e-9, "millisecond instants as datetime64[ns]", 1.0)
        obj = np.array([q.astype("datetime64[us]").item() for q in x], dtype=object)
        if all(isinstance(q, dtm.datetime) for q in obj):
            close("milliseconds", call(tc._normalize_time, obj), want, 1e-9, "millisecond instants as datetime objects", 1.0)
        close("integers", call(tc._normalize_time, (mins // 1440).astype(int), "matlab"), mins // 1440 - 366, 0, "integer matlab days", 1.0)
        h = rng.integers(-200000, 200000, n)
        for e in ("2000-01-01T18:30", dtm.datetime(2000, 1, 1, 18, 30), np.datetime64("2000-01-01T18:30")):
            close("integers", call(tc._normalize_time, h.astype(pick(rng, [np.int64, np.int32])), e), h + 730120 + 18.5 / 24, 1e-9,
                  f"whole days since {e!r}", 1.0)
        close("day-one", call(tc._normalize_time, np.array(["0001-01-01"], dtype="datetime64[D]")), [1.0], 0, "1 January of year 1", 1.0)
    if i % 3 == 0:
        c = Case(rng, kinds=("regular",), span=float(rng.uniform(6, 40)), noise=0.1, nmax=1000)
        step = int(pick(rng, [30, 60, 60, 90]))
        m0 = int(c.t[0] * 1440)
        m0 = max(m0, 1440 * 366)
        nn = int(c.T * 1440 / step) + 1
        mins = m0 + step * np.arange(nn)
        if rng.random() < 0.3:
            mins = mins[np.sort(rng.choice(nn, int(nn * 0.9), replace=False))]
        days = mins / 1440.0
        p = Prep(days, np.zeros(len(days)))
        E = ref.basis(days, p.tref, c.nr_lind, c.lat, c.nodal, c.phase)
        k = E.shape[1]
        z = rng.normal(size=k) + 1j * rng.normal(size=k)
        x = (E @ z).real + 0.3 + 0.02 * (days - days[0]) + 0.1 * rng.normal(size=len(days))
        y = (E @ (1j * z * rng.uniform(0.2, 2, k))).real + 0.1 * rng.normal(size=len(days)) if c.twod else None
        amp = np.abs(z).max()
        kw = dict(conf_int="linear" if rng.random() < 0.5 else "none")
        base = c.solve(t=days, u=x, v=y, **kw)
        r0 = recon(c, days, base)
        forms = time_forms(rng, mins)
        for j in rng.choice(len(forms), 4, replace=False):
            name, t, ep = forms[int(j)]
            b = c.solve(t=t, u=x, v=y, epoch=ep, **kw)
            same_solution("solve", b, base, c.twod, amp, f"times as {name}, epoch {ep!r} [{c.describe()}]", 1e-5)
            name2, t2, ep2 = forms[int(rng.integers(len(forms)))]
            r = recon(c, t2, b, epoch=ep2)
            close("reconstruct", r, r0, 2e-5, f"times as {name}/{name2}, epoch {ep!r}/{ep2!r} [{c.describe()}]", amp + np.abs(r0).max())
        # shift the day numbers and the epoch
        sh = int(rng.integers(-3000, 3000))
        ep = dtm.date(2000, 1, 1)
        b = c.solve(t=days - ep.toordinal(), u=x, v=y, epoch=ep.isoformat(), **kw)
        ep2 = ep + dtm.timedelta(days=sh)
        b2 = c.solve(t=days - ep.toordinal() - sh, u=x, v=y, epoch=ep2.isoformat(), **kw)
        same_solution("shift", b2, b, c.twod, amp, f"record shifted by {sh} days with its epoch", 1e-5)
    return f"{mins[0]}"


# ------------------------------------------------------------------ C07
def c07(rng, i):
    c = Case(rng, gaps=True, noise=pick(rng, [0.1, 0.5]), trend=True if rng.random() < 0.5 else None)
    n = len(c.t)
    bad_t = np.zeros(n, bool)
    mode = int(rng.integers(3))
    if mode:
        k = int(rng.integers(1, 8))
        bad_t[rng.choice(np.arange(1, n - 1), k, replace=False)] = True
        if mode == 2 and rng.random() < 0.5:
            bad_t[0] = True
    bad_u = c.miss.copy()
    bad_v = c.miss.copy()
    if c.twod:
        extra = rng.random(n) < 0.03
        half = rng.random(n) < 0.5
        bad_u = c.miss & half | extra
        bad_v = c.miss & ~half | (rng.random(n) < 0.02)
    full_u, full_v = c.x_full.real.copy(), c.x_full.imag.copy() if c.twod else None

    def nanform(x, bad):
        y = x.copy()
        y[bad] = np.nan
        return y

    t_nan = nanform(c.t, bad_t)
    kw = dict(conf_int=pick(rng, ["linear", "none"]), white=bool(rng.integers(2)))
    # reference: removed by hand, from the definition
    p = Prep(t_nan, nanform(full_u, bad_u), nanform(full_v, bad_v) if c.twod else None)
    f = ref.Fit(p, c.nr_lind, c.lat, c.nodal, c.phase, c.trend, None)
    if f.cond > 60 or len(p.t) < 2 * f.A.shape[1]:
        raise Skip("gappy case ill conditioned")
    base = c.solve(t=t_nan, u=nanform(full_u, bad_u), v=nanform(full_v, bad_v) if c.twod else None, **kw)
    sc = np.sqrt(np.mean(np.abs(f.x) ** 2))
    ix = idx_of(base, [ref.NAMES[k] for k in f.order()])
    compare_params("remaining-samples", params(base, c.twod, ix), f.params(), c.twod, np.max(np.abs(f.params()[0])), 1e-6)

    def mark(x, bad, how, junk=True):
        y = x.copy()
        if how == "nan":
            y[bad] = np.nan
            return y
        if how == "inf":
            y[bad] = np.where(rng.random(bad.sum()) < 0.5, np.inf, -np.inf)
            return y
        if how == "masked":
            y[bad] = pick(rng, [0.0, 1e6, -99999.0, float(np.nanmean(x))])
            return np.ma.array(y, mask=bad)
        if how == "masked-nan":
            y[bad] = np.nan
            return np.ma.array(y, mask=bad)
        h = rng.random(len(bad)) < 0.5          # mixture
        y[bad & h] = np.nan
        y[bad & ~h] = 1234.5
        return np.ma.array(y, mask=bad & ~h)

    hows = ["nan", "inf", "masked", "masked-nan", "mixed"]
    for _ in range(2):
        ht, hu, hv = pick(rng, ["nan", "masked", "mixed", "masked-nan", "inf"]), pick(rng, hows), pick(rng, hows)
        b = c.solve(t=mark(c.t, bad_t, ht), u=mark(full_u, bad_u, hu), v=mark(full_v, bad_v, hv) if c.twod else None, **kw)
        what = f"missing marked as t:{ht} u:{hu} v:{hv} [{c.describe()}]"
        same_solution("marker", b, base, c.twod, np.max(np.abs(f.params()[0])), what, 1e-6)
        for k in ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "SNR", "PE"):
            if k in b:
                close("marker-ci", b[k], base[k], 1e-5, f"{k}; {what}")
    # vector: a sample missing in either component is dropped
    if c.twod:
        both = bad_u | bad_v
        b = c.solve(t=t_nan, u=nanform(full_u, both), v=nanform(full_v, both), **kw)
        same_solution("joint", b, base, True, np.max(np.abs(f.params()[0])), f"sample missing in one component [{c.describe()}]", 1e-6)
    # reconstruction
    tt = np.concatenate([c.t[: int(rng.integers(1, n))], other_times(rng, c)])
    bt = rng.random(len(tt)) < pick(rng, [0.0, 0.1, 0.5, 1.0 if rng.random() < 0.1 else 0.3])
    good = recon(c, tt[~bt], base) if (~bt).any() else np.zeros(0)
    form = pick(rng, ["nan", "masked", "mixed", "inf", "nat"])
    if form == "nat":
        m = np.round(tt * 1440).astype(int)
        if m.min() < 1440 * 366:
            raise Skip("early")
        d = to_dt64(m)
        good = recon(c, d[~bt], base, epoch=None) if (~bt).any() else np.zeros(0)
        d[bt] = np.datetime64("NaT")
        got = recon(c, d, base, epoch=None)
    else:
        ti = mark(tt, bt, form)
        if rng.random() < 0.3:
            got = recon(c, ti + 366, base, epoch="matlab")
            good = recon(c, tt[~bt] + 366, base, epoch="matlab") if (~bt).any() else np.zeros(0)
        else:
            got = recon(c, ti, base)
    check("output-length", np.shape(got) == tt.shape, f"output shape {np.shape(got)} for {tt.shape} times")
    fin = np.isfinite(np.asarray(got))
    check("output-nan", np.array_equal(fin, ~bt), f"NaN pattern of the reconstruction differs from the missing times ({form}) [{c.describe()}]")
    close("output-values", np.asarray(got)[~bt], good, 1e-9, f"values at valid times ({form})", sc + np.abs(good).max() if len(good) else 1.0)
    return c.describe()


# ------------------------------------------------------------------ C08
def aligned(coef, key="alignment"):
    names = list(coef["name"])
    n = len(names)
    check(key, len(set(names)) == n, f"duplicate constituents {names}")
    for k in ("A", "g", "A_ci", "g_ci", "Lsmaj", "Lsmin", "theta", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR"):
        if k in coef:
            check(key, np.shape(coef[k]) == (n,), f"{k} has shape {np.shape(coef[k])} for {n} constituents")
    check(key, np.shape(coef["aux"]["frq"]) == (n,) and np.shape(coef["aux"]["lind"]) == (n,), "frequency or table index length")
    check(key, [int(x) for x in coef["aux"]["lind"]] == [ref.INDEX[x] for x in names], f"table indices {list(coef['aux']['lind'])} for {names}")
    lf = ref.lin_freqs(coef["aux"]["reftime"])
    close(key + "-frequency", coef["aux"]["frq"], [lf[ref.INDEX[x]] for x in names], 1e-11, f"frequencies of {names}", 1.0)


def c08(rng, i):
    from utide import constituent_selection as cs
    if usable(cs, "ut_cnstitsel", 1, 2, 3, 4):
        tref = float(rng.uniform(690000, 770000))
        minres = float(10 ** rng.uniform(-5, -1.5)) if i % 2 else float(pick(rng, ref.DF[ref.DF > 0]))
        _, cf = call(cs.ut_cnstitsel, tref, minres, "auto", None)
        check("auto-direct", set(cf.name) == {ref.NAMES[k] for k in range(ref.NC) if ref.DF[k] >= minres}, f"automatic set at resolution {minres!r}")
        k = int(rng.integers(1, 12))
        L = [ref.NAMES[j] for j in rng.choice(ref.NC, k, replace=False)]
        arg = pick(rng, [list(L), tuple(L), np.array(L), np.array(L, dtype=object)])
        _, cf = call(cs.ut_cnstitsel, tref, minres, arg, None)
        check("explicit-direct", list(cf.name) == L, f"explicit list {L} gave {list(cf.name)}")
        lf = ref.lin_freqs(tref)
        close("frequency-direct", cf.aux.frq, [lf[ref.INDEX[x]] for x in L], 1e-11, "frequencies", 1.0)
    mode = i % 3
    if mode == 0:
        # automatic
        T = float(10 ** rng.uniform(0.5, 2.3))
        rmin = float(pick(rng, [1, 1, 0.8, 1.5, 2.3]))
        dt = max(1 / 24, T / 1500)
        t = rng.uniform(700000, 750000) + dt * np.arange(int(T / dt) + 2)
        if rng.random() < 0.3:
            t = np.sort(rng.choice(t, int(len(t) * 0.9), replace=False))
        twod = rng.random() < 0.3
        u = rng.normal(size=len(t))
        v = rng.normal(size=len(t)) if twod else None
        T = t[-1] - t[0]
        want = {ref.NAMES[k] for k in range(ref.NC) if ref.DF[k] >= rmin / (24 * T)}
        if not want or 2 * len(want) + 2 >= len(t):
            raise Skip("no constituents")
        edge = np.abs(ref.DF - rmin / (24 * T)) < 1e-9 * ref.DF
        coef = call(solve, t, u, v, lat=float(rng.uniform(-80, 80)), epoch="python", conf_int="none", verbose=False, Rayleigh_min=rmin, nodal=False)
        got = set(coef["name"])
        amb = {ref.NAMES[k] for k in np.nonzero(edge)[0]}
        check("auto", got - amb == want - amb, f"T={T!r} d, factor {rmin}: extra {sorted(got - want)}, missing {sorted(want - got)}")
        aligned(coef)
        return f"auto T={T:.2f}"
    c = Case(rng, infer=mode == 2, max_const=8, noise=0.1, gaps=rng.random() < 0.3)
    kw = dict(conf_int=pick(rng, ["none", "linear", "linear"]), order_constit=pick(rng, [None, "PE", "frequency"]))
    cons = c.names
    if rng.random() < 0.5:
        cons = pick(rng, [tuple(cons), np.array(cons), np.array(cons, dtype=object)])
    coef = c.solve(constit=cons, **kw)
    f = c.fit()
    want = [ref.NAMES[k] for k in f.order()]
    check("selection", sorted(coef["name"]) == sorted(want), f"constituents {list(coef['name'])}, expected {want} [{c.describe()}]")
    aligned(coef)
    compare_params("values", params(coef, c.twod, idx_of(coef, want)), f.params(), c.twod, np.max(np.abs(f.params()[0])), 1e-6)
    if kw["conf_int"] == "linear" and not c.infer_ref:
        # intervals belong to the named constituent: reversed request gives the same interval by name
        b = c.solve(constit=list(reversed(c.names)), **kw)
        for k in ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "SNR", "PE"):
            if k in coef:
                x, y = np.asarray(coef[k])[idx_of(coef, want)], np.asarray(b[k])[idx_of(b, want)]
                ok = np.isfinite(x) & np.isfinite(y)
                if ok.any():
                    close("interval-alignment", x[ok], y[ok], 1e-4, f"{k} by name, list reversed [{c.describe()}]", np.abs(y[ok]).max())
    return c.describe()


# ------------------------------------------------------------------ C09
ARRS = ("A", "g", "A_ci", "g_ci", "Lsmaj", "Lsmin", "theta", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR")


def c09(rng, i):
    ci = pick(rng, ["none", "linear", "linear", "linear"])
    c = Case(rng, max_const=8, min_const=2, noise=0.3, infer=rng.random() < 0.25)
    kw = dict(conf_int=ci, white=bool(rng.integers(2)))
    sols = {}
    names = None
    orders = ["PE", None, "frequency"] + (["SNR"] if ci != "none" else [])
    for o in orders:
        sols[o] = c.solve(order_constit=o, **kw)
    names = list(sols["PE"]["name"])
    perm = [names[j] for j in rng.permutation(len(names))]
    form = pick(rng, [list(perm), tuple(perm), np.array(perm), np.array(perm, dtype=object)])
    sols["list"] = c.solve(order_constit=form, **kw)
    base = sols["list"]
    check("list-order", list(base["name"]) == perm, f"requested order {perm}, got {list(base['name'])}")
    if "PE" in sols["PE"]:
        d = np.diff(sols["PE"]["PE"])
        check("PE-order", np.all(d <= 1e-9), f"percent energy not non-increasing: {sols['PE']['PE']}")
    check("default", list(sols[None]["name"]) == names, "default order differs from 'PE'")
    check("frequency-order", np.all(np.diff(sols["frequency"]["aux"]["frq"]) >= 0), "frequencies not non-decreasing")
    if "SNR" in sols:
        s = np.asarray(sols["SNR"]["SNR"])
        s = s[np.isfinite(s)]
        check("SNR-order", np.all(np.diff(s) <= 1e-9 * np.abs(s[:-1]) + 1e-12), f"SNR not non-increasing: {s}")
    for o, s in sols.items():
        check("permutation", sorted(s["name"]) == sorted(perm), f"order {o!r}: constituents {list(s['name'])}")
        ix, jx = idx_of(s, perm), idx_of(base, perm)
        for k in ARRS:
            if o == "list" or k == "PE" and (k not in s or k not in base):
                continue
            check("permutation", (k in s) == (k in base), f"order {o!r}: {k} present in one solution only")
            if k in s:
                close("permutation", np.asarray(s[k])[ix], np.asarray(base[k])[jx], 1e-9, f"order {o!r}: {k} by name [{c.describe()}]")
        for k in ("frq", "lind"):
            close("permutation", np.asarray(s["aux"][k])[ix], np.asarray(base["aux"][k])[jx], 1e-13, f"order {o!r}: aux {k}")
        for k in ("mean", "slope", "umean", "vmean", "uslope", "vslope"):
            if k in s or k in base:
                close("permutation", s[k], base[k], 1e-12, f"order {o!r}: {k}", abs(base[k]) + 1e-300)
        aligned(s)
    return c.describe()


# ------------------------------------------------------------------ C10
def c10(rng, i):
    from utide import diagnostics as dg
    n = int(pick(rng, [1, 2, 3, 8, 40]))
    twod = bool(rng.integers(2))
    cf = Bunch(name=np.array([ref.NAMES[k] for k in rng.choice(ref.NC, n, replace=False)], dtype=object))
    amp = 10.0 ** rng.uniform(-4, 4, n)
    if twod:
        cf.Lsmaj, cf.Lsmin = amp, amp * rng.uniform(-1, 1, n)
        cf.Lsmaj_ci, cf.Lsmin_ci = 10.0 ** rng.uniform(-3, 3, n), 10.0 ** rng.uniform(-3, 3, n)
        E = cf.Lsmaj**2 + cf.Lsmin**2
        N = (cf.Lsmaj_ci / 1.96) ** 2 + (cf.Lsmin_ci / 1.96) ** 2
    else:
        cf.A, cf.A_ci = amp, 10.0 ** rng.uniform(-3, 3, n)
        if n > 2 and rng.random() < 0.2:
            cf.A[0] = 0.0
        E, N = cf.A**2, (cf.A_ci / 1.96) ** 2
    before = clone(cf)
    where = f"n={n} twod={twod} amplitudes {amp[:3]}..."
    if usable(dg, "_PE", 1) and usable(dg, "_SNR", 1):
        close("PE", call(dg._PE, cf), 100 * E / E.sum(), 1e-12, f"percent energy [{where}]", 100.0)
        s = call(dg._SNR, cf)
        check("SNR", np.all(np.abs(s - E / N) <= 1e-11 * np.abs(E / N)), f"SNR {s} expected {E / N} [{where}]")
    if usable(dg, "ut_diagn", 1):
        out = call(dg.ut_diagn, cf)
        d = out["diagn"]
        PE = dict(zip(cf.name, 100 * E / E.sum()))
        SN = dict(zip(cf.name, E / N))
        check("table", sorted(d["name"]) == sorted(cf.name), "diagnostics table names")
        close("table", d["PE"], [PE[x] for x in d["name"]], 1e-12, f"diagnostics PE by name [{where}]", 100.0)
        check("table", np.allclose(d["SNR"], [SN[x] for x in d["name"]], rtol=1e-10, atol=0), f"diagnostics SNR by name [{where}]")
        check("table", np.all(np.diff(d["PE"]) <= 1e-9), "diagnostics not by non-increasing PE")
        cc = Bunch({k: v for k, v in out.items() if k != "diagn"})
        r = deep_eq(before, cc)
        check("frame", r is None or r.endswith("keys differ"), f"diagnostics changed the solution: {r}")
    if i % 2 == 0:
        c = Case(rng, noise=pick(rng, [0.3, 0.05]), infer=rng.random() < 0.2, max_const=8)
        s = c.solve(conf_int="linear", white=bool(rng.integers(2)), order_constit=pick(rng, [None, "frequency", "SNR"]))
        if c.twod:
            E = s["Lsmaj"] ** 2 + s["Lsmin"] ** 2
            N = (s["Lsmaj_ci"] / 1.96) ** 2 + (s["Lsmin_ci"] / 1.96) ** 2
        else:
            E, N = s["A"] ** 2, (s["A_ci"] / 1.96) ** 2
        close("solution-PE", s["PE"], 100 * E / E.sum(), 1e-11, f"percent energy [{c.describe()}]", 100.0)
        check("solution-sum", abs(np.sum(s["PE"]) - 100) < 1e-8 and np.all(np.asarray(s["PE"]) >= 0), "percent energy does not add up to 100")
        with np.errstate(all="ignore"):
            w = E / N
        ok = np.isfinite(w)
        close("solution-SNR", np.asarray(s["SNR"])[ok] / w[ok], np.ones(ok.sum()), 1e-9, f"SNR [{c.describe()}]", 1.0)
        d = s["diagn"]
        pe = dict(zip(s["name"], s["PE"]))
        sn = dict(zip(s["name"], s["SNR"]))
        check("solution-table", sorted(d["name"]) == sorted(s["name"]), "diagnostics table names")
        close("solution-table", d["PE"], [pe[x] for x in d["name"]], 1e-11, "diagnostics PE by name", 100.0)
        x, y = np.array(d["SNR"]), np.array([sn[q] for q in d["name"]])
        ok = np.isfinite(y)
        check("solution-table", np.allclose(x[ok], y[ok], rtol=1e-9, atol=0), "diagnostics SNR by name")
        check("solution-table", np.all(np.diff(d["PE"]) <= 1e-9), "diagnostics not by non-increasing PE")
        n = c.solve(conf_int="none")
        check("no-intervals", "SNR" not in n and "diagn" not in n, "SNR reported without confidence intervals")
        E = n["Lsmaj"] ** 2 + n["Lsmin"] ** 2 if c.twod else n["A"] ** 2
        if "PE" in n:
            close("solution-PE", n["PE"], 100 * E / E.sum(), 1e-11, "percent energy without intervals", 100.0)
    return where


# ------------------------------------------------------------------ C11
def c11(rng, i):
    c = Case(rng, max_const=8, min_const=2, noise=pick(rng, [0.3, 1.0]), gaps=rng.random() < 0.2)
    ci = pick(rng, ["linear", "linear", "none"])
    coef = c.solve(conf_int=ci, white=bool(rng.integers(2)), order_constit=pick(rng, [None, "frequency"]))
    n = len(coef["name"])
    exact = None
    t = np.concatenate([c.t[:: max(1, len(c.t) // 20)], other_times(rng, c)[:20]])
    if rng.random() < 0.5:
        # parameters under our control: exact thresholds
        if c.twod:
            coef.Lsmaj = 2.0 ** rng.integers(-2, 3, n)
            coef.Lsmin = np.zeros(n) if rng.integers(2) else coef.Lsmaj * rng.choice([1.0, -1.0], n)
            if "Lsmaj_ci" in coef:
                coef.Lsmaj_ci = 1.96 * 2.0 ** rng.integers(-3, 2, n)
                coef.Lsmin_ci = np.zeros(n) if rng.integers(2) else coef.Lsmaj_ci.copy()
        else:
            coef.A = 2.0 ** rng.integers(-2, 3, n)
            if "A_ci" in coef:
                coef.A_ci = 1.96 * 2.0 ** rng.integers(-3, 2, n)
        if rng.random() < 0.5:
            # energies for which the percentages are exact however they are computed
            share = max(k for k in (1, 2, 4, 8) if k <= n)
            on = np.zeros(n)
            on[rng.permutation(n)[:share]] = 2.0 ** int(rng.integers(-2, 3))
            if c.twod:
                coef.Lsmaj, coef.Lsmin = on, np.zeros(n)
            else:
                coef.A = on
            exact = 100.0 / share
    amp = max(1e-300, np.abs(params(coef, c.twod)[0]).sum())

    def expect(ix):
        return synth(coef, c.twod, t, ix, c.nodal, c.phase, c.lat)

    m = np.abs(expect([])).max() + amp
    L = list(coef["name"])
    # by name
    for _ in range(2):
        k = int(rng.integers(0, n + 1))
        sub = [int(x) for x in rng.permutation(n)[:k]]
        names = [L[j] for j in sub] + ([x for x in [pick(rng, ["ZZZ", "M12", "NOPE"])] if x not in L] if rng.random() < 0.3 else [])
        if k and rng.random() < 0.3:
            names = names + names[:1]
        rng.shuffle(names)
        form = pick(rng, [list(names), tuple(names), np.array(names, dtype=object), set(names)])
        got = recon(c, t, coef, constit=form, min_SNR=pick(rng, [0, 2, 1e9]), min_PE=pick(rng, [0, 50]))
        close("by-name", got, expect(sub), 1e-7, f"constit={names} [{c.describe()}]", m)
    # superposition
    a = [int(x) for x in np.nonzero(rng.random(n) < 0.5)[0]]
    b = [j for j in range(n) if j not in a]
    ra, rb = (recon(c, t, coef, constit=[L[j] for j in q]) for q in (a, b))
    close("superposition", ra + rb - expect([]), recon(c, t, coef), 1e-7, f"selections {a} and {b} [{c.describe()}]", m)
    # thresholds
    close("all", recon(c, t, coef, min_SNR=0, min_PE=0), expect(range(n)), 1e-7, f"all constituents [{c.describe()}]", m)
    if ci == "none":
        close("no-diagnostics", recon(c, t, coef, min_SNR=3, min_PE=20), expect(range(n)), 1e-7, f"no diagnostics: all constituents [{c.describe()}]", m)
        return c.describe()
    if c.twod:
        E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
        with np.errstate(all="ignore"):
            S = E / ((coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2)
    else:
        E = coef["A"] ** 2
        with np.errstate(all="ignore"):
            S = E / (coef["A_ci"] / 1.96) ** 2
    PE = 100 * E / E.sum()
    for _ in range(3):
        ms = pick(rng, [0, 0, 2, float(rng.uniform(0, 20)), float(S[int(rng.integers(n))]), float(np.nanmedian(S))])
        mp = pick(rng, [0, 0, float(rng.uniform(0, 30)), float(PE[int(rng.integers(n))]) * (1 - 1e-9), float(np.median(PE)) * (1 + 1e-9)])
        if exact is not None and rng.random() < 0.5:
            mp = exact
        if not np.isfinite(ms):
            continue
        near = (np.abs(S - ms) < 1e-9 * np.abs(ms)) & (ms > 0) & ~((S == ms) & (np.log2(np.abs(S)) % 1 == 0))
        if near.any():
            ms = ms * (1 + 1e-7)
        if ms == 0 and mp == 0:
            continue
        with np.errstate(invalid="ignore"):
            ix = np.nonzero((S >= ms) & (PE >= mp))[0]
        kw = {} if (ms == 2 and mp == 0 and rng.random() < 0.5) else dict(min_SNR=ms, min_PE=mp)
        if kw:
            got = recon(c, t, coef, **kw)
        else:
            r = call(reconstruct, t, coef, epoch="python", verbose=False)
            got = r.u + 1j * r.v if c.twod else r.h
        close("thresholds", got, expect(ix), 1e-7, f"min_SNR={ms!r} min_PE={mp!r}: SNR={S} PE={PE} [{c.describe()}]", m)
    return c.describe()


# ------------------------------------------------------------------ C12
def c12(rng, i):
    c = Case(rng, infer=True, noise=pick(rng, [0.0, 0.3]), min_const=2, max_const=7, gaps=rng.random() < 0.2)
    if i % 12 == 11:
        o = dict(c.infer_opt)
        o["approximate"] = True
        try:
            c.solve(infer=Bunch(o))
        except Fail as e:
            raise Fail("approximate-inference", f"approximate inference is documented but fails: {e.msg}")
    kw = dict(conf_int=pick(rng, ["none", "linear"]), white=bool(rng.integers(2)))
    if rng.random() < 0.5:
        kw["order_constit"] = "frequency"
    coef = c.solve(**kw)
    o = c.infer_opt
    nI = len(o["inferred_names"])
    pos = {n: k for k, n in enumerate(coef["name"])}
    for n in o["inferred_names"] + o["reference_names"]:
        check("present", n in pos, f"{n} missing from the solution [{c.describe()}]")
    for k, (a, b) in enumerate(zip(o["inferred_names"], o["reference_names"])):
        r, ph = o["amp_ratios"][k], o["phase_offsets"][k]
        I, R = pos[a], pos[b]
        if not c.twod:
            close("ratio", coef["A"][I], r * coef["A"][R], 1e-9, f"amplitude of {a} vs {b} [{c.describe()}]", coef["A"][R] + 1e-300)
            close_ang("offset", coef["g"][I], coef["g"][R] - ph, 1e-6, f"phase of {a} vs {b} offset {ph} [{c.describe()}]")
        else:
            r2, ph2 = o["amp_ratios"][k + nI], o["phase_offsets"][k + nI]
            z = []
            for q in (I, R):
                L, l, th, g = (coef[x][q] for x in ("Lsmaj", "Lsmin", "theta", "g"))
                z.append((0.5 * (L + l) * np.exp(1j * np.radians(th - g)), 0.5 * (L - l) * np.exp(1j * np.radians(th + g))))
            sc = abs(z[1][0]) + abs(z[1][1])
            close("ratio+", z[0][0], r * np.exp(1j * np.radians(ph)) * z[1][0], 1e-8, f"anticlockwise part of {a} vs {b} [{c.describe()}]", sc)
            close("ratio-", z[0][1], r2 * np.exp(-1j * np.radians(ph2)) * z[1][1], 1e-8, f"clockwise part of {a} vs {b} [{c.describe()}]", sc)
    f = c.fit()
    ix = idx_of(coef, [ref.NAMES[k] for k in f.order()])
    compare_params("fit", params(coef, c.twod, ix), f.params(), c.twod, np.max(np.abs(f.params()[0])), 1e-6)
    got = recon(c, c.t, coef)
    sc = np.sqrt(np.mean(np.abs(c.truth) ** 2))
    close("fitted", got, f.predict(c.t), 1e-6, f"reconstruction with inference [{c.describe()}]", sc)
    if c.noise == 0.0:
        close("recovery", got, c.truth, 1e-6, f"record of reference and inferred constituents [{c.describe()}]", sc)
    return c.describe()


# ------------------------------------------------------------------ C13
def ci_expected(c, f, white):
    """intervals of every directly estimated constituent, and the variances used"""
    V = f.variances()
    nc = len(f.lind) + len(f.infer)
    vs = [V["Xu"][:nc].copy(), V["Yu"][:nc].copy()] + ([V["Xv"][:nc].copy(), V["Yv"][:nc].copy()] if c.twod else [])
    if not white:
        frq = ref.lin_freqs(f.prep.tref)[f.order()]
        for k, comp in enumerate(("u", "v") if c.twod else ("u",)):
            e = f.w * (f.resid if c.twod else f.resid.astype(complex))
            P = ref.noise_power(f.prep, e, frq, comp)[:nc]
            d = vs[2 * k] + vs[2 * k + 1]
            vs[2 * k], vs[2 * k + 1] = P * vs[2 * k] / d, P * vs[2 * k + 1] / d
    X = f.XY()
    X = [x[:nc] for x in (X if c.twod else X[:2])]
    return ref.linear_ci(X, vs), vs


def ci_inferred_heritage(c, f, vs):
    """the intervals the Matlab formulas give inferred constituents (linearised at the reference constituent)"""
    out = []
    nNR = len(f.lind)
    X = f.XY()
    for k, (_, infs) in enumerate(f.infer):
        q = nNR + k
        re, im = 0.25 * vs[0][q], 0.25 * vs[1][q]
        if c.twod:
            re, im = re + 0.25 * vs[3][q], im + 0.25 * vs[2][q]
        for _, rp, rm in infs:
            a = rp.real**2 + rm.real**2
            b = rp.imag**2 + rm.imag**2
            vx, vy = a * re + b * im, a * im + b * re
            if c.twod:
                out.append(ref.linear_ci([x[q] for x in X], [vx, vy, vy, vx]))
            else:
                out.append(ref.linear_ci([X[0][q], X[1][q]], [vx, vy]))
    return np.array(out).T


def c13(rng, i):
    from utide import confidence as cf
    if usable(cf, "ut_linci", 1, 2, 3, 4):
        s = np.abs(rng.normal(size=4)) * 10.0 ** rng.uniform(-2, 1)
        X = rng.normal(size=4) * 10.0 ** rng.uniform(-1, 1)
        if rng.random() < 0.2:
            X[int(rng.integers(4))] = 0.0
        if rng.random() < 0.2:
            s[int(rng.integers(4))] = 0.0
        a, b = call(cf.ut_linci, X[0], X[1], s[0], s[1])
        w = ref.linear_ci(X[:2], s[:2] ** 2)
        close("height", [a, b], np.array(w) / 1.96, 1e-8, f"X={X[:2]} sig={s[:2]}", max(w) / 1.96)
        w = ref.linear_ci(X, s**2)
        if np.all(np.isfinite(w)):
            a, b = call(cf.ut_linci, X[0] + 1j * X[2], X[1] + 1j * X[3], s[0] + 1j * s[2], s[1] + 1j * s[3])
            got = np.array([np.real(a), np.imag(a), np.imag(b), np.real(b)]) * 1.96
            for nm, x, y in zip(("major", "minor", "orientation", "phase"), got, w):
                check("ellipse", abs(x - y) <= 1e-7 * (abs(y) + max(np.abs(s))), f"{nm}: {x!r}, expected {y!r}; X={X} sig={s}")
    infer = i % 3 == 0
    c = Case(rng, noise=pick(rng, [0.1, 0.5, 1.0]), gaps=rng.random() < 0.3, max_const=5, nmax=400, infer=infer, long=i % 40 == 5)
    white = bool(rng.integers(2)) or len(c.t) > 1000
    robust = rng.random() < 0.3
    if robust:
        coef = c.solve(conf_int="linear", white=white, method="robust",
                       robust_kw=dict(weight_function=pick(rng, ["cauchy", "huber", "fair", "welsch"])))
        f = c.fit(weights=np.asarray(coef["weights"]))
        if np.linalg.cond(f.A / f.scale * f.w[:, None]) > 100:
            raise Skip("ill-conditioned")
    else:
        coef = c.solve(conf_int="linear", white=white)
        f = c.fit()
    how = f"{'white' if white else 'coloured'}{' robust' if robust else ''} [{c.describe()}]"
    want, vs = ci_expected(c, f, white)
    ix = idx_of(coef, [ref.NAMES[k] for k in f.order()])
    names = [ref.NAMES[k] for k in f.order()]
    keys = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if c.twod else ("A_ci", "g_ci")
    nc = len(f.lind) + len(f.infer)
    for k, w in zip(keys, want):
        got = np.asarray(coef[k])[ix]
        for j in range(nc):
            if not np.isfinite(w[j]):
                continue
            check("nonnegative", got[j] >= 0, f"{k} of {names[j]} = {got[j]} {how}")
            check("interval" if white else "coloured", abs(got[j] - w[j]) <= 2e-4 * abs(w[j]) + 1e-12,
                  f"{k} of {names[j]}: {got[j]!r}, expected {w[j]!r}, {how}")
    if infer and nc < len(ix):
        got = np.array([np.asarray(coef[k])[ix[nc:]] for k in keys])
        her = ci_inferred_heritage(c, f, vs)
        ok = np.isfinite(her)
        check("infer-nonnegative", np.all(got[ok] >= 0), f"intervals of inferred constituents {got} {how}")
        if np.all(np.abs(got - her)[ok] <= 2e-4 * np.abs(her)[ok] + 1e-12):
            if white:
                V = f.variances()
                vi = [V[q][nc:] for q in (("Xu", "Yu", "Xv", "Yv") if c.twod else ("Xu", "Yu"))]
                w = np.array(ref.linear_ci([x[nc:] for x in (f.XY() if c.twod else f.XY()[:2])], vi))
                if np.any(np.abs(got - w) > 1e-3 * np.abs(w)):
                    raise Fail("inferred-linearised-at-reference", f"intervals of inferred constituents are linearised at the reference "
                               f"constituent's coefficients (and in 1-D lose a factor sqrt 2): {got.tolist()}, first-order propagation gives {w.tolist()} {how}")
        elif white:
            V = f.variances()
            vi = [V[q][nc:] for q in (("Xu", "Yu", "Xv", "Yv") if c.twod else ("Xu", "Yu"))]
            w = np.array(ref.linear_ci([x[nc:] for x in (f.XY() if c.twod else f.XY()[:2])], vi))
            check("infer-intervals", np.all(np.abs(got - w) <= 1e-3 * np.abs(w)), f"intervals of inferred constituents {got.tolist()}, expected {w.tolist()} {how}")
        else:
            raise Fail("infer-intervals", f"intervals of inferred constituents {got.tolist()}; {her.tolist()} {how}")
    return c.describe()


# ------------------------------------------------------------------ C14
WF = {
    "andrews": lambda r: np.where(r < np.pi, np.sinc(r / np.pi), 0.0),
    "bisquare": lambda r: np.where(r < 1, (1 - r**2) ** 2, 0.0),
    "cauchy": lambda r: 1 / (1 + r**2),
    "fair": lambda r: 1 / (1 + r),
    "huber": lambda r: 1 / np.maximum(1, r),
    "logistic": lambda r: np.where(r < 1e-7, 1.0, np.tanh(np.maximum(r, 1e-12)) / np.maximum(r, 1e-12)),
    "ols": lambda r: np.ones_like(r),
    "talwar": lambda r: (r < 1).astype(float),
    "welsch": lambda r: np.exp(-(r**2)),
}


def c14(rng, i):
    from utide import robustfit as rf
    name = sorted(WF)[i % 9]
    w = getattr(rf, "wfuncdict", {}).get(name)
    if w is None:
        raise Skip("no weight functions")
    n = int(rng.integers(2, 50))
    r = np.concatenate([rng.normal(size=n) * 10.0 ** rng.uniform(-3, 2), [0.0, 0.5, 2.0]])
    if rng.random() < 0.4:
        r = r + 1j * rng.normal(size=len(r)) * np.abs(r).mean()
    got = np.asarray(call(w, r.copy()), dtype=float)
    check("weights-shape", got.shape == r.shape, f"{name}: shape {got.shape}")
    check("weights-range", np.all(got >= -1e-15) and np.all(got <= 1 + 1e-12), f"{name}: weights outside [0,1]: {got.min()} {got.max()}")
    close("weights-formula", got, WF[name](np.abs(r)), 1e-9, f"{name} of {np.abs(r)[:5]}...", 1.0)
    close("weights-even", call(w, -r), got, 1e-15, f"{name} depends on the sign", 1.0)
    o = np.argsort(np.abs(r))
    check("weights-monotone", np.all(np.diff(got[o]) <= 1e-12), f"{name}: weights grow with the residual")
    check("weights-zero", abs(float(np.asarray(call(w, np.zeros(2)))[0]) - 1) < 1e-9, f"{name}(0) != 1")
    # a robust regression
    p = int(rng.integers(1, 5))
    n = int(rng.integers(20, 120))
    cx = bool(rng.integers(2))
    X = rng.normal(size=(n, p)) + (1j * rng.normal(size=(n, p)) if cx else 0)
    b = rng.normal(size=p) + (1j * rng.normal(size=p) if cx else 0)
    y = X @ b + 0.1 * (rng.normal(size=n) + (1j * rng.normal(size=n) if cx else 0))
    out = rng.choice(n, max(1, n // 12), replace=False)
    y[out] += rng.normal(size=len(out)) * 10
    kw = dict(weight_function=name)
    maxit = int(pick(rng, [1, 2, 3, 50, 50]))
    kw["maxit"] = maxit
    kw["tol"] = float(pick(rng, [1e-3, 1e-6, 0.1]))
    if rng.random() < 0.3:
        kw["tune"] = rf.tune_defaults[name] * float(rng.uniform(0.7, 2))
    X0, y0 = X.copy(), y.copy()
    res = call(rf.robustfit, X, y, **kw)
    where = f"{name} n={n} p={p} maxit={maxit} tol={kw['tol']}"
    check("frame", np.array_equal(X, X0) and np.array_equal(y, y0), "robustfit changed its arguments")
    ww = np.asarray(res["w"], dtype=float)
    if np.linalg.matrix_rank(X * ww[:, None]) < p:
        raise Skip("weights degenerate")
    check("iterations", 1 <= res["iterations"] <= maxit, f"{res['iterations']} iterations, limit {maxit}")
    check("final-range", ww.shape == (n,) and np.all(ww >= -1e-15) and np.all(ww <= 1 + 1e-12), f"weights outside [0,1] [{where}]")
    rr = y - X @ res["b"]
    g = np.abs((X * ww[:, None]).conj().T @ (ww * rr))
    check("optimal", np.all(g <= 1e-7 * np.linalg.norm(X) * np.linalg.norm(y)), f"coefficients are not optimal for the returned weights: gradient {g.max():.3g} [{where}]")
    ols = np.linalg.lstsq(X, y, rcond=None)[0]
    close("first-fit", res["ols_b"], ols, 1e-8, f"first iteration is not the ordinary fit [{where}]")
    close("rms", res["rms_resid"], np.sqrt(np.mean(np.abs(rr) ** 2)), 1e-8, f"rms residual [{where}]")
    H = np.einsum("ij,ji->i", X, np.linalg.pinv(X)).real
    close("leverage", res["leverage"], H, 1e-8, "leverage", 1.0)
    if maxit == 1:
        close("one-iteration", res["b"], ols, 1e-8, f"a single iteration is the ordinary fit [{where}]")
    # weights come from the weight function of the scaled residuals of the previous fit: with one update
    if maxit == 2 and name != "ols":
        def upd(b0):
            rn = np.abs(y - X @ b0)
            rr0 = y - X @ b0
            s = np.median(np.abs(rr0 - np.median(rr0))) / 0.6745
            tune = kw.get("tune", rf.tune_defaults[name])
            return WF[name](rn / (tune * np.sqrt(1 - H) * s))
        w1 = upd(ols)
        if np.abs(ww - 1).max() > 1e-12:
            if not (np.median(np.abs(y)) != np.median(np.abs(y))):
                close("second-weights", ww, w1, 1e-6, f"weights after one update [{where}]", 1.0)
    exact = X @ b
    if rng.random() < 0.3 and name in ("cauchy", "huber", "fair", "welsch"):
        e = call(rf.robustfit, X, exact, **kw)
        close("exact", e["b"], b, 1e-7, f"exact data not recovered [{where}]")
    if i % 3 == 0:
        c = Case(rng, noise=0.1, max_const=4, nmax=300, gaps=rng.random() < 0.3)
        good = np.nonzero(~c.miss)[0]
        bad = rng.choice(good, max(2, len(good) // 40), replace=False)
        c.u[bad] += 8 * c.amp * rng.normal(size=len(bad))
        # (solve() must not depend on which weight function is documented for data with a median at zero)
        rk = dict(weight_function=name, maxit=int(pick(rng, [1, 2, 50])))
        coef = c.solve(method="robust", robust_kw=rk, conf_int=pick(rng, ["none", "linear"]), white=bool(rng.integers(2)))
        W = np.asarray(coef["weights"], dtype=float)
        check("solve-weights", W.shape == (len(c.prep.t),) and W.min() >= -1e-15 and W.max() <= 1 + 1e-12, "weights of the solution")
        f = c.fit(weights=W)
        if f.cond < 1e3 and (W > 1e-3).sum() > 2 * f.A.shape[1]:
            sw = np.linalg.cond(f.A / f.scale * W[:, None])
            if sw < 1e3:
                ix = idx_of(coef, [ref.NAMES[k] for k in f.order()])
                compare_params("solve-weighted", params(coef, c.twod, ix), f.params(), c.twod, np.max(np.abs(f.params()[0])), 1e-5)
        check("solve-iterations", coef["rf"]["iterations"] <= rk["maxit"], "iteration limit")
        if rk["maxit"] == 1:
            f = c.fit()
            ix = idx_of(coef, [ref.NAMES[k] for k in f.order()])
            compare_params("solve-first", params(coef, c.twod, ix), f.params(), c.twod, np.max(np.abs(f.params()[0])), 1e-5)
    return where


# ------------------------------------------------------------------ C15
def c15(rng, i):
    from utide import periodogram as pg
    if not usable(pg, "band_psd", 1, 2, 3, equi=True):
        raise Skip("no band_psd")
    n = int(rng.integers(200, 900))
    cx = bool(rng.integers(2))
    dt = float(pick(rng, [1 / 24, 0.5 / 24, 2 / 24, 1 / 48]))
    t = float(rng.uniform(700000, 740000)) + dt * np.arange(n)
    equi = bool(rng.integers(2))
    if not equi:
        t = np.sort(t + rng.uniform(-0.4, 0.4, n) * dt)
        n = len(t)
    amp = 10.0 ** rng.uniform(-2, 2)
    e = rng.normal(size=n) * amp + pick(rng, [0, 0.5]) * amp * np.cos(2 * np.pi * t * 1.93)
    if cx:
        e = e + 1j * (0.6 * rng.normal(size=n) * amp + 0.3 * e)
    m = int(rng.integers(1, 9))
    cfrq = ref.FREQ[rng.choice(np.nonzero(ref.FREQ > 1e-5)[0], m, replace=False)]
    e0, t0 = e.copy(), t.copy()
    P = call(pg.band_psd, t, e, cfrq.copy(), equi=equi)
    check("frame", np.array_equal(e, e0) and np.array_equal(t, t0), "band_psd changed its arguments")
    ee, tt = (e[:-1], t[:-1]) if n % 2 else (e, t)
    fn = ref.psd_fft if equi else ref.psd_lomb
    where = f"n={n} dt={dt * 24:.2f} h equi={equi} complex={cx}"
    f, S = fn(tt, ee.real)
    close("Puu", P.Puu, ref.band_means(f, S, cfrq), 1e-7, f"band averages [{where}]")
    if cx:
        f, S2 = fn(tt, ee.imag)
        close("Pvv", P.Pvv, ref.band_means(f, S2, cfrq), 1e-7, f"band averages of v [{where}]")
        if equi:
            f, S3 = fn(tt, ee.real, ee.imag)
            close("Puv", P.Puv, ref.band_means(f, S3, cfrq), 1e-7, f"co-spectrum [{where}]", np.nanmax(np.abs(ref.band_means(f, S, cfrq))) + np.nanmax(np.abs(ref.band_means(f, S2, cfrq))))
    check("real", np.asarray(P.Puu).dtype.kind == "f" and (not cx or np.asarray(P.Puv).dtype.kind == "f"), "spectra must be real")
    check("positive", np.all(P.Puu[np.isfinite(P.Puu)] >= 0), "negative power")
    k = float(rng.uniform(0.1, 9))
    off = amp * (rng.normal() + (1j * rng.normal() if cx else 0)) * 3
    Q = call(pg.band_psd, t, k * e + off, cfrq.copy(), equi=equi)
    close("scaling", Q.Puu, k * k * P.Puu, 1e-6, f"squared scaling and offset invariance [{where}]")
    sh = float(rng.integers(-500, 500))
    Q = call(pg.band_psd, t + sh, e, cfrq.copy(), equi=equi)
    close("origin", Q.Puu, P.Puu, 1e-4, f"time origin [{where}]")
    if cx:
        Q = call(pg.band_psd, t, e.imag + 1j * e.real, cfrq.copy(), equi=equi)
        close("symmetry", Q.Puu, P.Pvv, 1e-9, f"u and v exchanged [{where}]")
        close("symmetry", Q.Pvv, P.Puu, 1e-9, f"u and v exchanged [{where}]")
        close("symmetry", Q.Puv, P.Puv, 1e-6, f"co-spectrum with u and v exchanged [{where}]", np.nanmax(np.abs(P.Puu)) + np.nanmax(np.abs(P.Pvv)))
    if i % 2 == 0:
        # through solve: coloured intervals are the white ones rescaled to the band power
        c = Case(rng, noise=pick(rng, [0.3, 1.0]), gaps=rng.random() < 0.4, max_const=4, nmax=400)
        a = c.solve(conf_int="linear", white=False)
        f = c.fit()
        want, vs = ci_expected(c, f, False)
        ix = idx_of(a, [ref.NAMES[k] for k in f.order()])
        kk = "Lsmaj_ci" if c.twod else "A_ci"
        got = np.asarray(a[kk])[ix]
        ok = np.isfinite(want[0])
        check("band-power-nan", np.array_equal(np.isfinite(got), ok), f"finite pattern of {kk}: {got} vs {want[0]} [{c.describe()}]")
        if ok.any():
            close("band-power", got[ok] / want[0][ok], np.ones(ok.sum()), 3e-4, f"coloured {kk} [{c.describe()}]", 1.0)
    return where


# ------------------------------------------------------------------ C16
def c16(rng, i):
    from utide import confidence as cf
    n = int(rng.integers(1, 6))
    if usable(cf, "cluster", 1, 2):
        ang = float(pick(rng, [360, 360, 180]))
        x = rng.uniform(-720, 720, int(rng.integers(2, 60)))
        x0 = x.copy()
        y = call(cf.cluster, x, ang)
        check("cluster-frame", np.array_equal(x, x0), "cluster changed its argument")
        check("cluster-first", abs(y[0] - x[0]) < 1e-9, f"first value moved: {x[0]} -> {y[0]}")
        check("cluster-range", np.all(np.abs(y - y[0]) <= ang / 2 + 1e-9), f"values farther than half a turn: {np.abs(y - y[0]).max()}")
        d = (y - x) / ang
        check("cluster-turns", np.all(np.abs(d - np.round(d)) < 1e-9), "values changed by other than whole turns")
    if usable(cf, "nearestSPD", 1):
        M = rng.normal(size=(n + 1, n + 1))
        if rng.integers(2):
            A = M @ M.T
        else:       # as estimated: positive variances, correlations that may be too large, perhaps not quite symmetric
            A = (M + M.T) / 2 if rng.random() < 0.7 else M
            A = A / np.abs(A).max() * (1.5 if rng.random() < 0.5 else 1.0)
            np.fill_diagonal(A, 1.0)
            sd = np.abs(rng.normal(size=n + 1)) * 10.0 ** rng.uniform(-2, 2)
            A = A * np.outer(sd, sd)
        if rng.random() < 0.2:
            A = np.diag([1.0] * n + [0.0])
        A0 = A.copy()
        P = call(cf.nearestSPD, A)
        check("spd-frame", np.array_equal(A, A0), "nearestSPD changed its argument")
        check("spd-symmetric", np.allclose(P, P.T, atol=1e-12 * np.abs(P).max()), "not symmetric")
        w = np.linalg.eigvalsh((P + P.T) / 2)
        check("spd-positive", w.min() >= -1e-12 * np.abs(w).max(), f"negative eigenvalue {w.min()}")
        B = (A + A.T) / 2
        lam, U = np.linalg.eigh(B)
        close("spd-nearest", P, (U * np.maximum(lam, 0)) @ U.T, 1e-9, "not the nearest positive semi-definite matrix", np.abs(B).max())
    # covariances handed to the generator
    c = Case(rng, noise=pick(rng, [0.2, 0.6]), max_const=4, nmax=300)
    white = bool(rng.integers(2))
    f = c.fit()
    V = f.variances()
    nc = len(c.nr_lind)
    X = f.XY()
    X = np.array(X if c.twod else X[:2])
    frq = ref.lin_freqs(f.prep.tref)[c.nr_lind]
    e = f.resid if c.twod else f.resid.astype(complex)
    P = {} if white else {k: ref.noise_power(f.prep, e, frq, k) for k in (("u", "v", "uv") if c.twod else ("u",))}
    empty = not all(np.all(np.isfinite(x)) for x in P.values())
    calls = []
    real = np.random.multivariate_normal

    def spy(mean, cov, size=None, *a, **k):
        r = real(mean, cov, size, *a, **k)
        calls.append((np.array(mean, dtype=float), np.array(cov, dtype=float), size, np.array(r)))
        return r

    st = np.random.get_state()
    np.random.seed(int(rng.integers(2**31)))
    np.random.multivariate_normal = spy
    try:
        coef = c.solve(conf_int="MC", white=white)
    except Fail as exc:
        if empty and exc.key == "exception" and "SVD" in exc.msg:
            raise Fail("empty-band", "no spectral line is left in the band of a constituent, and " + exc.msg)
        raise
    finally:
        np.random.multivariate_normal = real
        np.random.set_state(st)
    if empty:
        raise Skip("empty band")
    ix = idx_of(coef, [ref.NAMES[k] for k in f.order()])
    covs = []
    for k in range(nc):
        def blk(comp):
            D = np.array([[V["X" + comp][k], V["XY" + comp][k]], [V["XY" + comp][k], V["Y" + comp][k]]])
            return D if white else P[comp][k] * D / np.trace(D)
        if not c.twod:
            C = blk("u")
        else:
            C = np.zeros((4, 4))
            C[:2, :2], C[2:, 2:] = blk("u"), blk("v")
            D = np.array([[V["XuXv"][k], V["XuYv"][k]], [V["YuXv"][k], V["YuYv"][k]]])
            if not white:
                D = P["uv"][k] * D / np.abs(D).sum() if np.abs(D).sum() > 0 else D * 0
            C[:2, 2:], C[2:, :2] = D, D.T
        lam, U = np.linalg.eigh((C + C.T) / 2)
        Cn = (U * np.maximum(lam, 0)) @ U.T
        covs.append((C, Cn))
    scale = np.abs(X).max()
    keys = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if c.twod else ("A_ci", "g_ci")
    for k in keys:
        x = np.asarray(coef[k])
        check("mc-finite", np.all(np.isfinite(x)) and np.all(x >= 0), f"{k} = {x} [{c.describe()}]")
    if len(calls) == nc:
        for k, (mean, cov, size, smp) in enumerate(calls):
            close("mc-mean", mean, X[:, k], 1e-6, f"mean of the samples of {c.names[k]} [{c.describe()}]", scale)
            C, Cn = covs[k]
            check("mc-symmetric", np.allclose(cov, cov.T, atol=1e-10 * np.abs(cov).max()), f"covariance not symmetric: {cov}")
            lam = np.linalg.eigvalsh((cov + cov.T) / 2)
            check("mc-psd", lam.min() >= -1e-9 * lam.max(), f"covariance not positive semi-definite: eigenvalues {lam}")
            want = C if white else Cn
            sd = np.sqrt(np.outer(np.diag(want), np.diag(want)))
            check("mc-covariance", np.all(np.abs(cov - want) <= 5e-3 * sd),
                  f"covariance of {c.names[k]} {cov.tolist()}, expected {want.tolist()} ({'white' if white else 'coloured'}) [{c.describe()}]")
            # interval from these samples, the first one being the fitted value, angles unwrapped about it
            j = ix[k]
            mad = lambda a: 1.96 * np.median(np.abs(a - np.median(a))) / 0.6745
            g0 = coef["g"][j]
            if c.twod:
                L, l, th, g = ref.ellipse(*smp.T)
                t0 = coef["theta"][j]
                th1 = t0 + angdiff(th, t0, 180)
                th1[0] = t0
                g1 = g0 + angdiff(g + np.where(np.arange(len(g)) == 0, 0, np.round(th1 - th)), g0)
            else:
                L, g = ref.ellipse(*smp.T)
                g1 = g0 + angdiff(g, g0)
            g1[0] = g0
            first = "Lsmaj_ci" if c.twod else "A_ci"
            close("mc-interval", coef[first][j], mad(L), 1e-6, f"{first} of {c.names[k]}", mad(L) + 1e-300)
            tol = 2e-2       # the sample that stands for the fitted value may or may not be included
            close("mc-phase", coef["g_ci"][j], mad(g1), tol, f"g_ci of {c.names[k]} [{c.describe()}]", mad(g1) + 1e-9)
            if c.twod:
                close("mc-interval", coef["Lsmin_ci"][j], mad(l), 1e-6, f"Lsmin_ci of {c.names[k]}", mad(l) + 1e-300)
                close("mc-orientation", coef["theta_ci"][j], mad(th1), tol, f"theta_ci of {c.names[k]} [{c.describe()}]", mad(th1) + 1e-9)
    # statistics: agree with the linearised intervals when noise is small
    lin, vs = ci_expected(c, f, white)
    A = lin[0]
    for k in range(nc):
        got = np.asarray(coef[keys[0]])[ix[k]]
        amp_k = f.params()[0][k]
        if not c.twod and A[k] < 0.2 * amp_k:
            check("mc-statistics", 0.6 * A[k] <= got <= 1.55 * A[k], f"{keys[0]} of {c.names[k]} = {got!r}, linear {A[k]!r} [{c.describe()}]")
    return c.describe()


# ------------------------------------------------------------------ C17
def _tables():
    import utide._ut_constants as uc
    from utide import astronomy, harmonics, periodogram, robustfit, _solve
    out = {"constants": uc.ut_constants, "index": uc.constit_index_dict, "cph": uc.cycles_per_hour, "hpc": uc.hours_per_cycle}
    for m in (astronomy, harmonics, periodogram, robustfit, _solve):
        for k, v in vars(m).items():
            if isinstance(v, (np.ndarray, dict, list)) and not k.startswith("__"):
                out[m.__name__ + "." + k] = v
    return out


_T0 = None


def c17(rng, i):
    global _T0
    if _T0 is None:
        _T0 = clone(_tables())
    c = Case(rng, gaps=rng.random() < 0.5, infer=rng.random() < 0.3, noise=0.2, max_const=6, nmax=300)
    use_ma = rng.random() < 0.5
    t = c.t.copy()
    u = c.u.copy()
    v = c.v.copy() if c.twod else None
    if use_ma:
        u = np.ma.masked_invalid(u)
        if rng.random() < 0.5:
            t = np.ma.array(t, mask=np.zeros(len(t), bool))
    epoch = "python"
    if rng.random() < 0.3:
        epoch = "matlab"
    opts = c.opts(epoch=epoch, conf_int=pick(rng, ["linear", "none", "linear"]), white=bool(rng.integers(2)),
                  order_constit=pick(rng, [None, "frequency", list(c.names)]) if c.infer_opt is None else None)
    if rng.random() < 0.2:
        opts["method"] = "robust"
        opts["robust_kw"] = dict(weight_function=pick(rng, ["cauchy", "huber", "welsch"]))
    if rng.random() < 0.3:
        opts["constit"] = np.array(opts["constit"])
    args = (t, u, v)
    a0, o0 = clone(args), clone(opts)
    rs = np.random.get_state()
    coef = call(solve, *args, **opts)
    check("random-state", deep_eq(rs, np.random.get_state()) is None, "solve changed numpy's random state")
    r = deep_eq(a0, args, "args")
    check("arguments", r is None, f"solve changed an argument: {r} [{c.describe()}]")
    r = deep_eq(o0, opts, "options")
    check("options", r is None, f"solve changed an option: {r} [{c.describe()}]")
    t2 = other_times(rng, c)
    if epoch == "matlab":
        t2 = t2 + 366
    if rng.random() < 0.4:
        t2[::7] = np.nan
    t2a = np.ma.masked_invalid(t2) if rng.random() < 0.4 else t2
    t20, coef0 = clone(t2a), clone(coef)
    kw = dict(constit=list(coef["name"][:2])) if rng.random() < 0.4 else dict(min_SNR=pick(rng, [0, 2]), min_PE=pick(rng, [0, 1]))
    kw0 = clone(kw)
    out = call(reconstruct, t2a, coef, epoch=epoch, verbose=False, **kw)
    r = deep_eq(t20, t2a, "t") or deep_eq(coef0, coef, "coef") or deep_eq(kw0, kw, "kw")
    check("reconstruct-arguments", r is None, f"reconstruct changed an argument: {r} [{c.describe()}]")
    r = deep_eq(_T0, _tables(), "tables")
    check("tables", r is None, f"constant tables changed: {r} [{c.describe()}]")
    # other calls in between, some of which fail
    for _ in range(int(rng.integers(1, 3))):
        q = int(rng.integers(4))
        try:
            with np.errstate(all="ignore"):
                if q == 0:
                    d = Case(rng, noise=0.2, max_const=4, nmax=150)
                    solve(d.t, d.u, d.v, **d.opts(conf_int="linear"))
                elif q == 1:
                    solve(c.t, c.u, c.v, lat=None)
                elif q == 2:
                    solve(c.t, c.u, lat=30, epoch="python", constit=["NOPE"], verbose=False)
                else:
                    d = Case(rng, noise=0.2, infer=True, max_const=4, nmax=150)
                    k = solve(d.t, d.u, d.v, **d.opts())
                    reconstruct(d.t, k, epoch="python", verbose=False)
        except Exception:
            pass
    r = deep_eq(_T0, _tables(), "tables")
    check("tables", r is None, f"constant tables changed: {r}")
    coef2 = call(solve, *args, **opts)
    r = deep_eq(coef0, coef2, "coef")
    check("repeatable", r is None, f"the same call gave a different solution later: {r} [{c.describe()}]")
    out2 = call(reconstruct, t2a, coef2, epoch=epoch, verbose=False, **kw)
    o1, o2 = dict(out), dict(out2)
    r = deep_eq(o1, o2, "out")
    check("repeatable", r is None, f"the same reconstruction differed later: {r}")
    # aliasing: overwriting the inputs afterwards must not change the solution
    for x in args:
        if x is not None:
            np.asarray(x.data if isinstance(x, np.ma.MaskedArray) else x)[:] = 7.0
    for k in ("constit", "order_constit"):
        if isinstance(opts.get(k), np.ndarray):
            opts[k][:] = opts[k][0]
    for key in ("A", "g", "Lsmaj", "Lsmin", "theta", "A_ci", "g_ci", "name", "weights", "PE", "SNR"):
        if key in coef0:
            r = deep_eq(coef0[key], coef2[key], key)
            check("aliasing", r is None, f"overwriting the inputs changed the solution: {r}")
    # results own their data
    res = [coef2[k] for k in ("A", "g", "Lsmaj", "theta", "weights") if k in coef2]
    check("table-aliasing", not any(np.shares_memory(x, y) for x in [coef2["aux"]["frq"], coef2["aux"]["lind"]] + res
                                    for y in (utide.ut_constants.const.freq, utide.ut_constants.const.df)), "result shares memory with a table")
    return c.describe()


# ------------------------------------------------------------------ C18
def c18(rng, i):
    c = Case(rng, noise=0.1, max_const=4, nmax=200, infer=False)
    t, u, v = c.t, c.u, c.v
    base = c.opts()
    lat = base.pop("lat")

    def bad(key, what, *a, kinds=(ValueError, KeyError, TypeError), **k):
        o = dict(base, lat=lat)
        o.update(k)
        must_raise(key, what, solve, *(a or (t, u, v)), kinds=kinds, **o)

    n = len(t)
    tests = [
        lambda: bad("latitude", "no latitude", lat=None, kinds=(ValueError,)),
        lambda: bad("unknown-option", "unknown option", **{pick(rng, ["foo", "Method", "Nodal", "conf", "trnd"]): 1}, kinds=(KeyError, TypeError)),
        lambda: bad("conf_int", "conf_int='bogus'", conf_int=pick(rng, ["bogus", "Linear", "mc", ""]), kinds=(ValueError,)),
        lambda: bad("method", "undocumented method", method=pick(rng, ["OLS", "bogus", "Robust", ""]), kinds=(ValueError, KeyError)),
        lambda: bad("phase", "undocumented phase", phase=pick(rng, ["greenwich", "bogus", "linear", ""]), kinds=(ValueError, KeyError)),
        lambda: bad("nodal", "undocumented nodal", nodal=pick(rng, ["bogus", "linear", "true", "None"]), kinds=(ValueError, KeyError)),
        lambda: bad("order", "undocumented order", order_constit=pick(rng, ["bogus", "pe", "snr", "freq"]), kinds=(ValueError,)),
        lambda: bad("order-snr", "SNR order without intervals", order_constit="SNR", conf_int="none", kinds=(ValueError,)),
        lambda: bad("weight-function", "unknown weight function", method="robust", robust_kw=dict(weight_function="bogus")),
        lambda: bad("length", "data shorter than times", t, u[:-1], None if v is None else v[:-1], kinds=(ValueError,)),
        lambda: bad("length-v", "v shorter than u", t, u, u[:-1], kinds=(ValueError,)),
        lambda: bad("2d", "two-dimensional data", np.column_stack([t, t]), np.column_stack([u, u]), None, kinds=(ValueError,)),
        lambda: bad("2d-row", "row-vector data", t[None, :], u[None, :], None, kinds=(ValueError,)),
        lambda: bad("0d", "scalar data", np.array(t[0]), np.array(u[0]), None, kinds=(ValueError,)),
        lambda: bad("epoch", "unparsable epoch", epoch=pick(rng, ["bogus", "1-2-3-4", "yesterday"]), kinds=(ValueError,)),
        lambda: bad("constituent", "unknown constituent", constit=list(c.names) + [pick(rng, ["M22", "m2", "XX"])], kinds=(KeyError, ValueError)),
        lambda: bad("order-list", "order list that repeats a constituent", order_constit=list(c.names) + [c.names[0]], kinds=(ValueError, KeyError)),
        lambda: bad("order-list", "order list that leaves out a constituent", order_constit=list(c.names)[1:] or ["MSM" if c.names[0] == "M3" else "M3"],
                    kinds=(ValueError, KeyError)),
        lambda: bad("order-list", "order list with a constituent not in the solution", order_constit=list(c.names) + ["NOPE"], kinds=(ValueError, KeyError)),
        lambda: must_raise("time-type", "text times with an epoch", solve, np.array(["a"] * n), u, v, kinds=(ValueError, TypeError), **dict(base, lat=lat)),
    ]
    m = 2 if c.twod else 1
    good_inf = dict(inferred_names=["P1", "K2"], reference_names=["K1", "S2"], amp_ratios=[0.3, 0.2] * m, phase_offsets=[1.0, 2.0] * m)

    def badinf(key, what, **ch):
        d = dict(good_inf)
        for k, x in ch.items():
            if x is None:
                d.pop(k)
            else:
                d[k] = x
        bad(key, what, infer=Bunch(d) if rng.integers(2) else d, kinds=(ValueError, KeyError, AttributeError))

    for k in ("inferred_names", "reference_names", "amp_ratios", "phase_offsets"):
        tests.append(lambda k=k: badinf("infer-missing", f"inference without {k}", **{k: None}))
        if rng.random() < 0.5:
            tests.append(lambda k=k: badinf("infer-missing", f"inference without {k}, extra item", **{k: None, "extra": 1}))
    tests += [
        lambda: badinf("infer-length", "reference list shorter", reference_names=["K1"]),
        lambda: badinf("infer-length", "reference list longer", reference_names=["K1", "S2", "M2"]),
        lambda: badinf("infer-length", "ratio list too short", amp_ratios=[0.3] * (2 * m - 1)),
        lambda: badinf("infer-length", "offset list too long", phase_offsets=[0.3] * (2 * m + 1)),
        lambda: badinf("infer-length", "lists of the other dimensionality", amp_ratios=[0.3] * (2 if m == 2 else 4), phase_offsets=[0.3] * (2 if m == 2 else 4)),
        lambda: badinf("infer-name", "unknown inferred constituent", inferred_names=["P1", "NOPE"]),
        lambda: badinf("infer-name", "unknown reference constituent", reference_names=["K1", "NOPE"]),
    ]
    for j in range(len(tests)):
        tests[j]()
    must_raise("reconstruct-2d", "two-dimensional times", reconstruct, np.column_stack([t, t]), call(solve, t, u, v, lat=lat, **base),
               epoch="python", verbose=False, kinds=(ValueError,))
    # valid values are accepted, recorded and take effect
    coef = call(solve, t, u, v, lat=lat, **base)
    rec = coef["aux"]["opt"]["newopts"] if "newopts" in coef["aux"]["opt"] else coef["aux"]["opt"]
    for k in ("constit", "nodal", "phase", "trend", "conf_int"):
        if k in rec:
            check("recorded", deep_eq(rec[k], base[k]) is None, f"option {k}={base[k]!r} recorded as {rec[k]!r}")
    defaults = dict(order_constit=None, conf_int="linear", method="ols", trend=True, phase="Greenwich", nodal=True, infer=None,
                    Rayleigh_min=1, white=False, robust_kw={"weight_function": "cauchy"})
    given = {k: base[k] for k in ("epoch", "constit")}
    drop = [k for k in defaults if rng.random() < 0.6]
    a = call(solve, t, u, v, lat=lat, verbose=False, **given, **defaults)
    b = call(solve, t, u, v, lat=lat, verbose=False, **given, **{k: x for k, x in defaults.items() if k not in drop})
    r = deep_eq({k: x for k, x in a.items() if k not in ("aux",)}, {k: x for k, x in b.items() if k not in ("aux",)})
    check("defaults", r is None, f"leaving out {drop} is not the same as giving the documented default: {r}")
    one = pick(rng, ["phase", "nodal", "trend", "white", "conf_int", "infer-none", "Rayleigh_min"])
    if one == "phase":
        for ph in ("Greenwich", "linear_time", "raw"):
            s = call(solve, t, u, v, lat=lat, **dict(base, phase=ph))
            f = ref.Fit(Prep(t, u, v), c.nr_lind, c.lat, c.nodal, ph, c.trend, None)
            compare_params("effect-phase", params(s, c.twod, idx_of(s, c.names)), f.params(), c.twod, np.abs(f.params()[0]).max(), 1e-6)
    elif one == "nodal":
        for nd in (True, False, "linear_time"):
            s = call(solve, t, u, v, lat=lat, **dict(base, nodal=nd))
            f = ref.Fit(Prep(t, u, v), c.nr_lind, c.lat, nd, c.phase, c.trend, None)
            if f.cond < 50:
                compare_params("effect-nodal", params(s, c.twod, idx_of(s, c.names)), f.params(), c.twod, np.abs(f.params()[0]).max(), 1e-6)
    elif one == "trend":
        for tr in (True, False):
            s = call(solve, t, u, v, lat=lat, **dict(base, trend=tr))
            check("effect-trend", (("uslope" if c.twod else "slope") in s) == tr, f"trend={tr}")
    elif one == "conf_int":
        s = call(solve, t, u, v, lat=lat, **dict(base, conf_int="none"))
        check("effect-conf", not any(k in s for k in ("A_ci", "g_ci", "Lsmaj_ci")), "intervals although conf_int='none'")
        s = call(solve, t, u, v, lat=lat, **dict(base, conf_int="linear"))
        check("effect-conf", ("Lsmaj_ci" if c.twod else "A_ci") in s and "g_ci" in s, "no intervals although conf_int='linear'")
    elif one == "white":
        f = c.fit()
        w, _ = ci_expected(c, f, True)
        s = call(solve, t, u, v, lat=lat, **dict(base, conf_int="linear", white=True))
        k = "Lsmaj_ci" if c.twod else "A_ci"
        close("effect-white", np.asarray(s[k])[idx_of(s, c.names)] / w[0], np.ones(len(c.names)), 1e-3, "white intervals", 1.0)
    elif one == "Rayleigh_min":
        tt = float(rng.uniform(700000, 740000)) + np.arange(int(rng.integers(200, 1500))) / 12
        for rm in (0.6, 1, 1.7):
            s = call(solve, tt, np.cos(3 * tt) + 0.1 * rng.normal(size=tt.size), lat=lat, epoch="python", conf_int="none", verbose=False, Rayleigh_min=rm, nodal=False)
            want = {ref.NAMES[k] for k in range(ref.NC) if ref.DF[k] >= rm / (24 * (tt[-1] - tt[0]))}
            check("effect-rayleigh", set(s["name"]) == want, f"Rayleigh_min={rm}: {sorted(set(s['name']) ^ want)}")
    elif one == "infer-none":
        s = call(solve, t, u, v, lat=lat, **dict(base, infer="none"))
        r = deep_eq(params(s, c.twod), params(coef, c.twod))
        check("effect-infer-none", r is None, "infer='none' is not the same as no inference")
    return c.describe()


# ------------------------------------------------------------------ C19
def c19(rng, i):
    c = Case(rng, noise=pick(rng, [0.1, 0.4]), gaps=rng.random() < 0.3, max_const=6, nmax=400, infer=False)
    ci = dict(conf_int="linear", white=bool(rng.integers(2)))
    a = c.solve(**ci)
    names = list(a["name"])
    amp = np.abs(params(a, c.twod)[0]).max()
    k = float(10 ** rng.uniform(-3, 3))
    b = c.solve(u=k * c.u, v=None if c.v is None else k * c.v, **ci)
    ix = idx_of(b, names)
    pa, pb = params(a, c.twod), params(b, c.twod, ix)
    sc = (k, k, 1, 1) if c.twod else (k, 1)
    compare_params("scale", pb, tuple(x * s for x, s in zip(pa, sc)), c.twod, k * amp, 1e-7)
    mag = amp + sum(abs(a[q]) for q in ("mean", "umean", "vmean") if q in a)
    for key in ("mean", "slope", "umean", "vmean", "uslope", "vslope"):
        if key in a:
            close("scale", b[key], k * a[key], 1e-6, f"{key} scaled by {k}", k * mag)
    for key, p in (("A_ci", k), ("Lsmaj_ci", k), ("Lsmin_ci", k), ("g_ci", 1), ("theta_ci", 1), ("PE", 1), ("SNR", 1)):
        if key in a:
            x, y = p * np.asarray(a[key]), np.asarray(b[key])[ix]
            ok = np.isfinite(x)
            check("scale-ci", np.array_equal(ok, np.isfinite(y)), f"{key}: finite pattern")
            close("scale-ci", y[ok] / np.where(x[ok] == 0, 1, x[ok]), np.where(x[ok] == 0, 0, 1.0), 1e-5, f"{key} scaled by {k} [{c.describe()}]", 1.0)
    # constant
    off = amp * rng.normal() * 5
    offv = amp * rng.normal() * 5
    b = c.solve(u=c.u + off, v=None if c.v is None else c.v + offv, **ci)
    ix = idx_of(b, names)
    compare_params("offset", params(b, c.twod, ix), pa, c.twod, amp + abs(off), 1e-7)
    for key, o in (("mean", off), ("umean", off), ("vmean", offv), ("slope", 0), ("uslope", 0), ("vslope", 0)):
        if key in a:
            close("offset", b[key], a[key] + o, 1e-6, f"{key} after adding {o}", mag + abs(off) + abs(offv))
    if c.twod:
        # components and rotation
        su = call(solve, c.t, np.where(np.isnan(c.v), np.nan, c.u), None, **c.opts())
        sv = call(solve, c.t, np.where(np.isnan(c.u), np.nan, c.v), None, **c.opts())
        Xu, Yu, Xv, Yv = ref.from_ellipse(*pa)
        for s, X, Y, q in ((su, Xu, Yu, "u"), (sv, Xv, Yv, "v")):
            jx = idx_of(s, names)
            A, g = params(s, False, jx)
            close("components", A * np.cos(np.radians(g)), X, 1e-6, f"cosine coefficient of {q} [{c.describe()}]", amp)
            close("components", A * np.sin(np.radians(g)), Y, 1e-6, f"sine coefficient of {q} [{c.describe()}]", amp)
            close("components", s["mean"], a[q + "mean"], 1e-6, f"mean of {q}", mag)
        al = float(rng.uniform(-180, 180))
        z = (c.u + 1j * c.v) * np.exp(1j * np.radians(al))
        b = c.solve(u=z.real, v=z.imag, conf_int="none")
        ix = idx_of(b, names)
        L, l, th, g = params(b, True, ix)
        close("rotate", L, pa[0], 1e-6, f"semi-major axis after rotating by {al}", amp)
        close("rotate", l, pa[1], 1e-6, f"semi-minor axis after rotating by {al}", amp)
        th2 = pa[2] + al
        g2 = pa[3]
        for x, y, nm in zip(ref.from_ellipse(L, l, th, g), ref.from_ellipse(pa[0], pa[1], th2, g2), ("Xu", "Yu", "Xv", "Yv")):
            close("rotate", x, y, 1e-6, f"{nm} after rotating by {al} [{c.describe()}]", amp)
        ellipse_ranges((L, l, th, g), True)
        # exchange of components
        e1 = c.solve(**dict(ci, order_constit="frequency"))
        e2 = c.solve(u=c.v, v=c.u, **dict(ci, order_constit="frequency"))
        close("exchange", e2["Lsmaj"], e1["Lsmaj"], 1e-6, "semi-major axis, components exchanged", amp)
        close("exchange", e2["Lsmin"], -np.asarray(e1["Lsmin"]), 1e-6, "semi-minor axis, components exchanged", amp)
        for key in ("Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci"):
            x, y = np.asarray(e1[key]), np.asarray(e2[key])
            ok = np.isfinite(x) & (np.abs(x) > 0) & (np.abs(np.abs(e1["Lsmin"]) / e1["Lsmaj"]) < 0.97)
            if ok.any():
                close("exchange-ci", y[ok] / x[ok], np.ones(ok.sum()), 1e-4, f"{key}, components exchanged [{c.describe()}]", 1.0)
    return c.describe()


ALL = {f"C{k:02d}": globals()[f"c{k:02d}"] for k in range(1, 20)}
