"""_date2num, _python_gregorian_datenum, _normalize_time: day numbers of instants."""
from __future__ import annotations

from fractions import Fraction

from ..lib import *  # noqa
from .. import npmodel
from ..dates import NS, Dates

MS = 86400000
DAY_NS = 86400 * 10 ** 9
EPOCH_DAY = 719163      # 1 January 1970 is day 719163 when 1 January of year 1 is day 1 (proleptic Gregorian calendar)


def fuzz(v=None):
    import datetime
    rng = np.random.default_rng(3)
    for trial in range(200):
        k = int(rng.integers(1, 5))
        ms = rng.integers(-60000000000000, 4000000000000, k)
        if trial % 2:
            ms = ms // 86400000 * 86400000
        want = ms / MS + EPOCH_DAY
        unit = ("ms", "us", "s", "D", "obj", "h")[trial % 6]
        q = {"s": 1000, "D": MS, "h": 3600000}.get(unit, 1)
        ms = ms // q * q
        want = ms / MS + EPOCH_DAY
        t = ms.astype("datetime64[ms]")
        if unit == "obj":
            t = np.array([datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=int(x)) for x in ms], dtype=object)
        elif unit != "ms":
            t = t.astype(f"datetime64[{unit}]")
        got = m_time._normalize_time(t)
        if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=1.5 / MS):
            return f"_normalize_time({t!r}) = {got!r}, expected {want!r}"
        e = np.datetime64(int(rng.integers(-2000000000000, 3000000000000)), "ms")
        if trial % 3 == 1:
            e = e.astype("datetime64[D]")
        em = int(e.astype("datetime64[ms]").astype("int64"))
        num = (ms - em) / MS
        ep = (str(e), e.astype(datetime.datetime), e)[trial % 3 if trial % 2 else 0]
        got = m_time._normalize_time(num, ep)
        if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=1.5 / MS):
            return f"_normalize_time({num!r}, {ep!r}) = {got!r}, expected {want!r}"
        day = rng.integers(-800000, 800000, k)
        got = m_time._normalize_time(day, ep)
        if not np.allclose(got, day + EPOCH_DAY + em / MS, rtol=0, atol=1.5 / MS):
            return f"_normalize_time({day!r}, {ep!r}) = {got!r}, expected {day + EPOCH_DAY + em / MS!r}"
        for ep, ofs in (("python", 0), ("matlab", -366)):
            got = m_time._normalize_time(num, ep)
            if not np.allclose(got, num + ofs, rtol=0, atol=1e-6 / MS * 1000):
                return f"_normalize_time({num!r}, {ep!r}) = {got!r}"
        for bad in ("nonsense", "2000-13-45"):
            try:
                m_time._normalize_time(num, bad)
                return f"_normalize_time accepts the epoch {bad!r}"
            except ValueError:
                pass
        try:
            m_time._normalize_time(t, "python")
            return "_normalize_time accepts datetimes together with an epoch"
        except ValueError:
            pass
    return ("no failing input", 200)


def dates_in(m, unit, masked, obj=False):
    npmodel.MISSING.add("cnt_t")
    a = SArr((m,), lambda idx: T.app("cnt_t", T.lift(idx[0]), sort="I"), "i", owner="input", is_ma=masked,
             mask=(lambda idx: T.bapp("masked", T.lift(idx[0]))) if masked else None)
    return Dates(a, "M", unit, obj=obj)


def epoch_in(unit, obj=False):
    e = T.var("epoch_cnt", "I")
    return Dates(SArr((), lambda idx: e, "i", owner="input"), "M", unit, obj=obj)


def exact(cnt, unit):
    """day number of an instant given as a count of units since 1970"""
    return cnt * T.pconst(Fraction(NS[unit], DAY_NS)) + EPOCH_DAY


def close(a, b):
    """within the millisecond resolution of dates"""
    d = a - b
    r = T.pconst(Fraction(1, MS))
    return T.and_(T.cmp_("le", d, r), T.cmp_("le", -d, r))


def missing_kept(s, r, i, masked, name):
    fin = npmodel._isfinite(r.get(i))
    bad = T.bapp("bad:" + name, i) if name else False      # whole numbers are never missing
    ms = r.msnap()((i,)) if r.is_ma else False
    if masked:
        s.eq("missing exactly where the input is missing or masked", T.lift(T.or_(T.not_(fin), ms)), T.lift(T.or_(bad, T.bapp("masked", i)) if name else T.bapp("masked", i)))
    else:
        s.eq("missing exactly where the input is missing", T.lift(T.or_(T.not_(fin), ms)), T.lift(bad) if name else T.ZERO)


def run(s):
    # calendar constants: the day numbers the properties speak of
    with s.unit("calendar", replay=fuzz):
        for date, want in (("0001-01-01", 1), ("1970-01-01", EPOCH_DAY), ("2000-03-01", 730180), ("0001-12-31T12:00:00.001", Fraction(731, 2) + Fraction(1, MS))):
            ms = int(np.datetime64(date, "ms").astype("int64"))
            s.eq(f"reference day number of {date}", T.pconst(Fraction(ms, MS)) + EPOCH_DAY,
                 T.pconst(Fraction(want)))
    # dates without an epoch
    for unit in ("ns", "us", "ms", "s", "m", "h", "D"):
        for masked in (False, True):
            for obj in ((False, True) if unit == "us" else (False,)):
                with s.unit(f"_normalize_time[{'date objects' if obj else 'datetime64 ' + unit},{'masked' if masked else 'plain'}]", replay=fuzz):
                    def body():
                        m = nvar("m", 1)
                        t = dates_in(m, unit, masked, obj)
                        it = Interp()
                        r = A.as_sarr(it.call(m_time._normalize_time, (t,)))
                        s.used(it)
                        s.true("one number per instant", r.ndim == 1 and A.same_dim(r.shape[0], m))
                        i = gen(m, "i")
                        s.true("the day number of the instant, to the millisecond", close(r.get(i), exact(T.app("cnt_t", i, sort="I"), unit)))
                        missing_kept(s, r, i, masked, "cnt_t")
                        s.true("input unmodified", not it.frame_violations)
                        s.sanity()
                    for facts, (kind, r) in s.paths(body):
                        if kind == "exc":
                            s.true(f"no exception ({r})", False)
    # numbers with an epoch
    for ep in ("python", "matlab", "ms", "us", "D", "us objects"):
        for masked, whole in ((False, False), (True, False), (False, True), (True, True)):
            with s.unit(f"_normalize_time[{'whole ' if whole else ''}numbers,{'masked' if masked else 'plain'},epoch {ep}]", replay=fuzz):
                def body2():
                    m = nvar("m", 1)
                    if not whole:
                        npmodel.MISSING.add("tnum")
                    num = lambda j: T.app("tday", T.lift(j), sort="I") if whole else T.app("tnum", T.lift(j))
                    t = SArr((m,), lambda idx: num(idx[0]), "i" if whole else "f", owner="input", is_ma=masked,
                             mask=(lambda idx: T.bapp("masked", T.lift(idx[0]))) if masked else None)
                    it = Interp()
                    u = ep.split()[0]
                    e = ep if ep in ("python", "matlab") else epoch_in(u, "objects" in ep)
                    r = A.as_sarr(it.call(m_time._normalize_time, (t, e)))
                    s.used(it)
                    s.true("one number per time", r.ndim == 1 and A.same_dim(r.shape[0], m))
                    i = gen(m, "i")
                    x = num(i)
                    if ep == "python":
                        s.eq("python day numbers as they are", r.get(i), x)
                    elif ep == "matlab":
                        s.eq("matlab day numbers are 366 larger", r.get(i), x - 366)
                    else:
                        c = T.var("epoch_cnt", "I")
                        s.true("days since the epoch, to the millisecond", close(r.get(i), x + exact(c, u)))
                        # moving the epoch back by k days and the numbers up by k days changes nothing
                        k = T.var("days", "I")
                        moved = T.subst(r.get(i), {T.the_atom(c): c - k * T.pconst(DAY_NS // NS[u]), T.the_atom(x): x + k})
                        s.eq("shifting the numbers and moving the epoch back changes nothing", moved, r.get(i))
                    missing_kept(s, r, i, masked, None if whole else "tnum")
                    s.true("input unmodified", not it.frame_violations)
                    s.sanity()
                for facts, (kind, r) in s.paths(body2):
                    if kind == "exc":
                        s.true(f"no exception ({r})", False)
    run_rejected(s)


def run_rejected(s):
    # what cannot be honoured
    for what in ("unparsable epoch", "dates with an epoch", "date objects with an epoch"):
        with s.unit(f"_normalize_time[{what}]", replay=fuzz):
            def body3():
                m = nvar("m", 1)
                it = Interp()
                if what == "unparsable epoch":
                    e = epoch_in("ms")
                    e.bad = True
                    it.call(m_time._normalize_time, (rarr("tnum", m), e))
                else:
                    it.call(m_time._normalize_time, (dates_in(m, "us", False, "objects" in what), "python"))
            for facts, (kind, r) in s.paths(body3):
                s.true("ValueError", kind == "exc" and isinstance(getattr(r, "exc", r), ValueError))
