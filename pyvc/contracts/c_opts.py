"""Option processing: what is documented is accepted, recorded and translated; everything else is rejected."""
from __future__ import annotations

import itertools

from ..lib import *  # noqa
from ..objs import Key, OStr, OVal, SName
from ..slist import SList

Bunch = m_util.Bunch
METHODS, PHASES, CONFS = ("ols", "robust"), ("Greenwich", "linear_time", "raw"), ("linear", "MC", "none")
NODALS = (True, False, "linear_time")
# published defaults (documentation of utide.solve), not the package's table
DEFAULT = dict(constit="auto", order_constit=None, conf_int="linear", method="ols", trend=True, phase="Greenwich", nodal=True, infer=None, MC_n=200,
               Rayleigh_min=1, robust_kw={"weight_function": "cauchy"}, white=False, verbose=True, epoch=None)
JUNK = ["", " ", "OLS", "Ols", "ols ", "robus", "robustt", "olsrobust", "ROBUST", "none", "None", "NONE", "mc", "Mc", "MC ", "lin", "Linear", "LINEAR", "linear_times",
        "linear", "linear_time ", "Linear_time", "linear time", "lineartime", "greenwich", "GREENWICH", "Raw", "RAW", "raw ", "true", "false", "True", "no", "yes", "pe", "snr", "Pe",
        "Snr", "Frequency", "freq", "PEs", "energy", "auto", "M2", "l", "r", "m", 0.5, 2, -1, "0", "1", 1.5, 3, 7.0, "MC", "raw", "PE", "SNR", "frequency", "ols", "robust", "Greenwich",
        "linear_time", "bootstrap", "matlab", "python", b"ols", "\u0000", "tidal", "montecarlo", "monte carlo", "full", "nodal"]


def ok(name, v):
    doc = {"method": METHODS, "phase": PHASES, "conf_int": CONFS, "nodal": NODALS}[name]
    return any(type(v) is type(d) and v == d or (not isinstance(v, str) and not isinstance(d, str) and v == d) for d in doc)


def fuzz(val=None):
    import copy
    rng = np.random.default_rng(11)
    proc = m_solve._process_opts

    def attempt(kw, two=False):
        try:
            return proc(dict(kw), two)
        except Exception as e:
            return e
    base = dict(DEFAULT)
    for v, same in ((0, False), (np.False_, False), (np.True_, True), (1, True), (0.0, False)):
        r = attempt({"nodal": v})
        if not isinstance(r, ValueError) and (isinstance(r, Exception) or wrong(r, {**base, "nodal": same, "order_constit": "PE"}) not in (None, f"recorded option nodal = {v!r}")):
            return f"_process_opts({{'nodal': {v!r}}}) -> {r!r}"
    n = 0
    for name in ("method", "phase", "conf_int", "nodal"):
        for v in JUNK + [None, True, False]:
            for other in ({}, {"conf_int": "none"}, {"method": "robust"}, {"phase": "raw"}, {"nodal": False}):
                if name in other:
                    continue
                n += 1
                r = attempt({name: v, **other})
                if ok(name, v) == isinstance(r, Exception):
                    return f"_process_opts({ {name: v, **other} }) -> {r!r}"
                if not ok(name, v) and not isinstance(r, ValueError):
                    return f"_process_opts({ {name: v, **other} }) raises {r!r}"
    for k in ["Method", "methods", "lat", "constits", "order", "nodsatlint", "linci", "opts", "minSNR", "min_SNR", "Trend", "t", "strict_", "conf", "rmin", "cnstit", "twodim", "equi"]:
        n += 1
        if not isinstance(attempt({k: 1}), Exception):
            return f"unknown option {k} accepted"
    for trial in range(1500):
        kw = {}
        two = bool(rng.integers(2))
        pick = dict(constit=["auto", ["M2", "S2"]], order_constit=[None, "PE", "frequency", "SNR", ["S2", "M2"]], conf_int=CONFS, method=METHODS, trend=[True, False],
                    phase=PHASES, nodal=NODALS, infer=[None], MC_n=[17], Rayleigh_min=[0.5, 2], robust_kw=[{"weight_function": "huber"}], white=[True, False],
                    verbose=[True, False], epoch=[None, "python", "1990-01-01"])
        for k, vs in pick.items():
            if rng.random() < 0.5:
                kw[k] = vs[int(rng.integers(len(vs)))]
        keep = copy.deepcopy(kw)
        full = {**base, **kw}
        n += 1
        r = attempt(kw, two)
        bad = full["order_constit"] == "SNR" and full["conf_int"] == "none"
        if bad != isinstance(r, Exception):
            return f"_process_opts({keep}) -> {r!r}"
        if kw != keep:
            return f"_process_opts changed its argument {keep} into {kw}"
        if bad:
            continue
        d = wrong(r, full)
        if d:
            return f"_process_opts({keep}): {d}"
    for trial in range(1500):
        two = bool(rng.integers(2))
        nI = int(rng.integers(0, 4))
        f = 2 if two else 1
        good = trial % 2 == 0
        ls = [nI, nI, f * nI, f * nI] if good else [nI] + list(rng.integers(0, 7, 3))
        good = ls[1] == nI and ls[2] == ls[3] == f * nI
        inf = dict(zip(("inferred_names", "reference_names", "amp_ratios", "phase_offsets"), (["N"] * ls[0], ["M2"] * ls[1], [0.1] * ls[2], [1.0] * ls[3])))
        if rng.random() < 0.4:
            inf["approximate"] = bool(rng.integers(2))
        drop = rng.random() < 0.2
        if drop:
            del inf[str(rng.choice(["inferred_names", "reference_names", "amp_ratios", "phase_offsets"]))]
            good = False
        keep = copy.deepcopy(inf)
        arg = Bunch(inf) if rng.random() < 0.5 else dict(inf)
        n += 1
        try:
            r = m_solve.validate_infer(arg, two)
        except Exception as e:
            r = e
        if dict(arg) != keep:
            return f"validate_infer changed its argument {keep} into {dict(arg)}"
        if good == isinstance(r, Exception):
            return f"validate_infer({keep}, {two}) -> {r!r}"
        if good and (dict(r) != {"approximate": False, **keep}):
            return f"validate_infer({keep}, {two}) -> {r!r}"
    if dict(proc({}, False).newopts) != {**base, "order_constit": "PE"}:
        return f"the defaults are {proc({}, False).newopts}"
    return ("no failing input", n)


def flag(r, k):
    return bool(r[k]) if k in r else False


def wrong(r, o):
    """difference between the processed options and the options o meant, or None"""
    want = dict(nodsatlint=o["nodal"] == "linear_time", nodsatnone=o["nodal"] == False, gwchlint=o["phase"] == "linear_time",  # noqa
                gwchnone=o["phase"] == "raw", conf_int=o["conf_int"] != "none", nodiagn=o["conf_int"] == "none", notrend=not o["trend"])
    for k, v in want.items():
        if flag(r, k) != v:
            return f"{k} = {r.get(k)!r}"
    if o["conf_int"] != "none" and flag(r, "linci") != (o["conf_int"] == "linear"):
        return f"linci = {r.get('linci')!r}"
    order = o["order_constit"]
    order = "PE" if order is None else order
    for k, v in dict(cnstit=o["constit"], ordercnstit=order, infer=o["infer"], rmin=o["Rayleigh_min"], white=o["white"], epoch=o["epoch"], RunTimeDisp=o["verbose"]).items():
        if not (r[k] is v or r[k] == v):
            return f"{k} = {r[k]!r}"
    for k, v in o.items():
        if k != "order_constit" and not (r.newopts[k] is v or r.newopts[k] == v):
            return f"recorded option {k} = {r.newopts[k]!r}"
    if not (r.newopts["order_constit"] == order):
        return f"recorded order {r.newopts['order_constit']!r}"
    return None


# --------------------------------------------------------------------------------------------------------------
def update_values(s):
    """Bunch.update_values, strict: for every set of options given, and whatever their values"""
    with s.unit("Bunch.update_values[every set of documented options]", replay=fuzz):
        keys = list(DEFAULT)
        val = {k: OVal("value of " + k) for k in keys}
        dflt = {k: OVal("default of " + k) for k in keys}
        unknown = Key("some other name")
        bad = rejected = mutated = 0
        n = 2 ** len(keys)
        for bits in range(n):
            given = {k: val[k] for i, k in enumerate(keys) if bits >> i & 1}
            b = Bunch(dflt)
            b.update_values(strict=True, **given)
            bad += not (len(b) == len(keys) and all(dict.__getitem__(b, k) is given.get(k, dflt[k]) for k in keys))
            if bits % 8 == 0:
                try:
                    b = Bunch(dflt)
                    b.update_values(strict=True, **{unknown: 1}, **given)
                except KeyError:
                    rejected += 1
                mutated += any(dict.__getitem__(b, k) is not dflt[k] for k in keys)
        s.true("each option given is recorded, each other one keeps its default", bad == 0)
        s.true("a name that is none of the documented ones is rejected", rejected == n // 8)
        s.assumptions.append("Bunch.update_values: the 2^14 sets of given options are enumerated, with opaque values (any inspection of a value would stop the run) "
                             "and an opaque unknown name")


EQUAL = (0, np.False_, np.True_)      # equal to a documented value: rejected, or treated as that value


CASES = dict(
    method=METHODS + (OStr("some other method", METHODS), OVal("some method that is no string")),
    phase=PHASES + (OStr("some other phase", PHASES), OVal("some phase that is no string")),
    nodal=NODALS + EQUAL + (OStr("some other nodal", ("linear_time",)), OVal("some nodal that is no string", (True, False))),
    conf_int=CONFS + (OStr("some other conf_int", CONFS), OVal("some conf_int that is no string")))


def documented(v):
    return not hasattr(v, "_optval")


def process(s):
    orders = {"default": None, "PE": "PE", "frequency": "frequency", "SNR": "SNR", "undocumented string": OStr("some other order", ("PE", "frequency", "SNR")),
              "list": "list", "not a sequence": "scalar"}
    for on, order in orders.items():
        with s.unit(f"_process_opts[order: {on}]", replay=fuzz, seconds=60):
            n = 0
            for me, ph, no, ci in itertools.product(*CASES.values()):
                und = [v for v in (me, ph, no, ci) if not documented(v)]
                if any(no is e for e in EQUAL) and und:
                    continue
                if len(und) > 1 and not (len(und) == 2 and on == "default"):
                    continue
                n += 1
                one(s, on, order, me, ph, no, ci)
    with s.unit("_process_opts[nothing given]", replay=fuzz):
        def body():
            it = Interp()
            r = it.call(m_solve._process_opts, ({}, OVal("twodim")))
            s.used(it)
            s.true("published defaults", wrong(r, DEFAULT) is None)
            s.true("published defaults recorded", set(r.newopts) == set(DEFAULT))
        run_paths(s, body)
    for k in DEFAULT:
        with s.unit(f"_process_opts[{k} not given]", replay=fuzz):
            def body():
                it = Interp(contracts={"utide._solve.validate_infer": lambda it, i, d: i})
                o = dict(DEFAULT, constit=OVal("constit"), trend=False, conf_int="MC", method="robust", phase="raw", nodal=False, infer=None, MC_n=OVal("MC_n"),
                         Rayleigh_min=T.var("rmin"), robust_kw=OVal("robust_kw"), white=OVal("white"), verbose=OVal("verbose"), epoch=OVal("epoch"), order_constit="frequency")
                del o[k]
                r = it.call(m_solve._process_opts, (dict(o), OVal("twodim")))
                s.true("default used for it and only for it", wrong(r, {**DEFAULT, **o}) is None)
            run_paths(s, body)
    with s.unit("_process_opts[unknown option name]", replay=fuzz):
        def body():
            Interp().call(m_solve._process_opts, ({Key("some other name"): OVal("value")}, OVal("twodim")))
        for facts, (kind, r) in s.paths(body):
            s.true("rejected", kind == "exc")


def run_paths(s, body):
    for facts, (kind, r) in s.paths(body):
        if kind == "exc":
            with using(facts):
                s.true(f"no exception ({r})", False)


def one(s, on, order, me, ph, no, ci):
    what = f"method {me}, phase {ph}, nodal {no}, conf_int {ci}"

    def body():
        nt = nvar("n", 0)
        arr = SArr((nt,), lambda idx: SName(T.app("nm", T.lift(idx[0]), sort="I", nonneg=True)), "O")
        oc = SList(arr) if on == "list" else OVal("some order that is no string") if on == "not a sequence" else order
        if on == "not a sequence":
            assume(T.not_(oc.iterable()))
        two = OVal("twodim")
        seen = []
        processed = OVal("processed inference")

        def infer(it, i, d):
            s.note("inference options validated with the dimension", i is inf and d is two)
            seen.append(1)
            return processed
        inf = OVal("inference options")
        it = Interp(contracts={"utide._solve.validate_infer": infer})
        o = dict(constit=OVal("constit"), order_constit=oc, conf_int=ci, method=me, trend=OVal("trend"), phase=ph, nodal=no, infer=inf, MC_n=OVal("MC_n"),
                 Rayleigh_min=T.var("rmin"), robust_kw=OVal("robust_kw"), white=OVal("white"), verbose=OVal("verbose"), epoch=OVal("epoch"))
        arg = dict(o)
        r = it.call(m_solve._process_opts, (arg, two))
        s.used(it)
        s.note("inference options validated once", len(seen) == 1)
        s.true(f"{what}: options passed in unchanged", len(arg) == len(o) and all(arg[k] is o[k] for k in o) and not it.frame_violations)
        return r, o, processed, arr
    for facts, (kind, r) in s.paths(body):
        with using(facts):
            bad = [v for v in (me, ph, no, ci) if not documented(v)] or on in ("not a sequence", "undocumented string") or (on == "SNR" and ci == "none")
            if bad:
                s.true(f"{what}: rejected with ValueError", kind == "exc" and isinstance(r.exc, ValueError))
                continue
            if kind == "exc" and any(no is e for e in EQUAL) and isinstance(r.exc, ValueError):
                continue
            if kind == "exc":
                s.true(f"{what}: accepted ({r})", False)
                continue
            r, o, processed, arr = r
            want = dict(o, infer=processed)
            if on == "list":
                # the list of names, in the order given
                got = r["ordercnstit"]
                if isinstance(got, SList):
                    k = gen(arr.shape[0])
                    s.true(f"{what}: order list kept", A.same_dim(got.arr.shape[0], arr.shape[0]))
                    s.true(f"{what}: order list kept in order", got.arr.get(k) == arr.get(k))
                    want["order_constit"] = got
                else:
                    raise Unsupported("order list of another kind")
            d = wrong(r, want)
            s.true(f"{what}: translated and recorded" + (f" ({d})" if d else ""), d is None)


# --------------------------------------------------------------------------------------------------------------
REQ = ("inferred_names", "reference_names", "amp_ratios", "phase_offsets")


def names(tag, n):
    return SList(SArr((n,), lambda idx: SName(T.app(tag, T.lift(idx[0]), sort="I", nonneg=True)), "O"))


def numbers(tag, n):
    return SList(rarr(tag, n))


def infer(s):
    for two, cls, approx in itertools.product((False, True), (dict, Bunch), (None, True, False)):
        w = ("two" if two else "one") + f" component{'s' if two else ''}, given as {cls.__name__}, approximate {'not given' if approx is None else approx}"
        with s.unit(f"validate_infer[{w}]", replay=fuzz):
            def body():
                n = [nvar(k, 0) for k in ("nI", "nR", "na", "np")]
                arg = cls()
                for k, m, f in zip(REQ, n, (names, names, numbers, numbers)):
                    arg[k] = f(k, m)
                extra = OVal("some other item")
                arg["comment"] = extra
                if approx is not None:
                    arg["approximate"] = approx
                old = dict(arg)
                olda = {k: arg[k].arr for k in REQ}
                it = Interp()
                res, exc = None, None
                try:
                    res = it.call(m_solve.validate_infer, (arg, two))
                except ProgExc as e:
                    exc = e
                s.used(it)
                s.true("argument unchanged", dict.keys(arg) == old.keys() and all(arg[k] is old[k] for k in old) and all(arg[k].arr is olda[k] for k in REQ)
                       and not it.frame_violations)
                f = 2 if two else 1
                good = T.and_(T.eq_(n[1], n[0]), T.eq_(n[2], f * n[0]), T.eq_(n[3], f * n[0]))
                if exc is not None:
                    s.true("rejected only if the lengths are inconsistent", T.not_(good))
                    s.true("ValueError", isinstance(exc.exc, ValueError))
                else:
                    s.true("accepted only if the lengths are consistent", good)
                    s.true("items kept", all(res[k] is old[k] for k in old))
                    s.true("exact inference unless asked otherwise", res["approximate"] is (False if approx is None else approx))
                    s.true("nothing else", set(res) == set(old) | {"approximate"})
            run_paths(s, body)
    for r in range(4):
        for have in itertools.combinations(REQ, r):
            with s.unit(f"validate_infer[only {', '.join(have) or 'nothing'}]", replay=fuzz):
                def body():
                    nI = nvar("nI", 0)
                    arg = {k: numbers(k, nvar("n" + k, 0)) for k in have}
                    Interp().call(m_solve.validate_infer, (arg, OVal("twodim")))
                for facts, (kind, e) in s.paths(body):
                    s.true("ValueError", kind == "exc" and isinstance(e.exc, ValueError))
    with s.unit("validate_infer[no inference]", replay=fuzz):
        def body():
            it = Interp()
            s.true("None", it.call(m_solve.validate_infer, (None, OVal("twodim"))) is None)
            s.true("'none'", it.call(m_solve.validate_infer, ("none", OVal("twodim"))) is None)
        run_paths(s, body)


# --------------------------------------------------------------------------------------------------------------
def fuzz_names(val=None):
    names = list(m_const.ut_constants.const.name)
    n = 0
    for bad in JUNK + ["M2 ", " M2", "m2", "M22", "XX", "K3O", "Z", "S", "M"]:
        if bad in names or not isinstance(bad, str):
            continue
        for lst in ([bad], ["M2", bad], [bad, "S2"]):
            n += 1
            try:
                r = m_sel.ut_cnstitsel(730000.0, 0.001, lst, None)
                return f"ut_cnstitsel accepts {lst}: {r[1].name}"
            except Exception:
                pass
        for which in (0, 1):
            n += 1
            inf = Bunch(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.3], phase_offsets=[1.0], approximate=False)
            inf[("inferred_names", "reference_names")[which]] = [bad]
            try:
                r = m_sel.ut_cnstitsel(730000.0, 0.001, ["M2"], inf)
                return f"ut_cnstitsel accepts {inf}: {r[1].name}"
            except Exception:
                pass
    rng = np.random.default_rng(1)
    X, y = rng.normal(size=(9, 2)), rng.normal(size=9)
    for bad in JUNK + ["Cauchy", "CAUCHY", "tukey", "hampel", "hub", "l1"]:
        n += 1
        for kw in ({}, {"tune": 2.0}):
            try:
                m_rob.robustfit(X, y, weight_function=bad, **kw)
            except Exception:
                continue
            if bad not in WEIGHTS:
                return f"robustfit accepts weight_function={bad!r}"
    return ("no failing input", n)


def unknown_names(s):
    bad = Key("unknown constituent")

    def inference(i, r):
        return Bunch(inferred_names=[i], reference_names=[r], amp_ratios=[T.var("a")], phase_offsets=[T.var("p")], approximate=False)
    cases = {"the only one asked for": ([bad], None), "after a known one": (["M2", bad], None), "before a known one": ([bad, "M2"], None),
             "between known ones": (["M2", bad, "S2"], None), "inferred": (["M2"], inference(bad, "K1")), "reference": (["M2"], inference("P1", bad)),
             "asked for, besides inference": (["M2", bad], inference("P1", "K1"))}
    for what, (lst, inf) in cases.items():
        with s.unit(f"ut_cnstitsel[unknown constituent {what}]", replay=fuzz_names):
            def body():
                it = Interp()
                try:
                    it.call(m_sel.ut_cnstitsel, (T.var("tref"), T.var("minres"), list(lst), inf))
                finally:
                    s.used(it)
            for facts, (kind, e) in s.paths(body):
                s.true("rejected", kind == "exc")
    for tune in (None, "given"):
        with s.unit(f"robustfit[unknown weight function, tuning {tune}]", replay=fuzz_names):
            def body():
                it = Interp(contracts={"utide.robustfit.leverage": lambda it, x: rarr("lev", n)})
                n = nvar("n", 2)
                kw = dict(weight_function=OStr("some weight function", tuple(WEIGHTS)))
                if tune:
                    kw["tune"] = T.var("tune")
                try:
                    it.call(m_rob.robustfit, (rarr("X", n, nvar("p", 1)), rarr("y", n)), kw)
                finally:
                    s.used(it)
            for facts, (kind, e) in s.paths(body):
                s.true("rejected", kind == "exc")


WEIGHTS = ("andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "ols", "talwar", "welsch")


def run(s):
    update_values(s)
    process(s)
    infer(s)
    unknown_names(s)
