"""The verifier against CPython: functions of the package executed symbolically (arrays of symbolic length, branches decided by a valuation)
and by CPython with numpy on the concrete inputs of that valuation; results, and every axiom the semantics introduced on the way, have to agree.

  python -m pyvc.fidelity [NAME ...]      all cases, or those whose name starts with NAME
"""
from __future__ import annotations

import copy
import signal
import sys
import time
import warnings

from .lib import *  # noqa
from . import npmodel
from .interp import ENGINE, Interp, ProgExc
from .numeric import EvalError, Valuation
from .slist import SList

Bunch = m_util.Bunch


class Concolic:
    """branches go where the valuation says"""

    def __init__(self, val):
        self.val = val

    def choose(self, b):
        v = bool(self.val.ev(b))
        ENGINE.push(b if v else T.not_(b))
        return v


class Sym:
    """symbolic counterpart of concrete arguments"""

    def __init__(self, fixed=()):
        self.impl = {}
        self.n = 0
        self.fixed = fixed

    def dim(self, k):
        if k in self.fixed or k < 2:
            return k
        nm = f"len{k}"
        if nm not in self.impl:
            self.impl[nm] = lambda k=k: k
            ENGINE.push(T.cmp_("le", 2, T.var(nm, "I", True)))
        return T.var(nm, "I", True)

    def __call__(self, x):
        if isinstance(x, Const):
            return x.v
        self.n += 1
        nm = f"in{self.n}"
        if isinstance(x, np.ndarray) and x.dtype.kind in "fciu":
            d = np.ma.getdata(x)
            ma = isinstance(x, np.ma.MaskedArray)
            msk = np.ma.getmaskarray(x) if ma else None
            sh = tuple(self.dim(k) for k in x.shape)
            if d.dtype.kind == "f" and not np.isfinite(d).all():
                npmodel.MISSING.add(nm)
            if ma:
                self.impl["masked:" + nm] = lambda *i: msk[tuple(int(round(k)) for k in i)]
            at = lambda a: (lambda *i: a[tuple(int(round(k)) for k in i)])
            self.impl["bad:" + nm] = lambda *i: not np.isfinite(d[tuple(int(round(k)) for k in i)])
            mask = (lambda idx: T.bapp("masked:" + nm, *[T.lift(i) for i in idx])) if ma else None
            if d.dtype.kind == "c":
                self.impl[nm + "_re"], self.impl[nm + "_im"] = at(d.real), at(d.imag)
                return SArr(sh, lambda idx: Cx(T.app(nm + "_re", *[T.lift(i) for i in idx]), T.app(nm + "_im", *[T.lift(i) for i in idx])), "c", owner="input")
            self.impl[nm] = at(d)
            srt = "I" if d.dtype.kind in "iu" else "R"
            nn = bool((np.nan_to_num(d) >= 0).all()) and srt == "I"
            return SArr(sh, lambda idx: T.app(nm, *[T.lift(i) for i in idx], sort=srt, nonneg=nn), "i" if srt == "I" else "f", owner="input", is_ma=ma, mask=mask)
        if isinstance(x, complex):
            self.impl[nm + "_re"], self.impl[nm + "_im"] = (lambda: x.real), (lambda: x.imag)
            return Cx(T.var(nm + "_re"), T.var(nm + "_im"))
        if isinstance(x, float):
            self.impl[nm] = lambda: float(x)
            return T.var(nm)
        if isinstance(x, Bunch):
            return Bunch({k: self(v) for k, v in x.items()})
        if isinstance(x, dict):
            return {k: self(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(self(v) for v in x)
        return x


def show(x):
    return repr(x)[:160].replace("\n", " ")


class Mismatch(Exception):
    pass


def same(val, got, want, where="result"):
    """compare a symbolic result with CPython's"""
    if isinstance(got, SList):
        got = got.arr if hasattr(got, "arr") else A.as_sarr(got)
    if isinstance(want, np.ma.MaskedArray) or isinstance(want, np.ndarray):
        g = A.as_sarr(got)
        sh = tuple(int(round(val.ev(T.lift(d)))) for d in g.shape)
        if sh != want.shape:
            raise Mismatch(f"{where}: shape {sh}, CPython {want.shape}")
        if g.is_ma != isinstance(want, np.ma.MaskedArray):
            raise Mismatch(f"{where}: masked {g.is_ma}, CPython {type(want).__name__}")
        wm = np.ma.getmaskarray(want) if g.is_ma else None
        for pos in np.ndindex(*sh):
            if g.is_ma:
                m = g.mask_fn(pos) if g.mask_fn is not None else False
                if bool(val.ev(m)) != bool(wm[pos]):
                    raise Mismatch(f"{where}{list(pos)}: mask differs")
                if wm[pos]:
                    continue
            same(val, g.get(*pos), np.ma.getdata(want)[pos], where + str(list(pos)))
        return
    if isinstance(want, dict):
        if set(got) != set(want):
            raise Mismatch(f"{where}: keys {sorted(got)}, CPython {sorted(want)}")
        for k in want:
            same(val, got[k], want[k], f"{where}.{k}")
        return
    if isinstance(want, (list, tuple)):
        g = list(got) if not isinstance(got, SArr) else [got.get(i) for i in range(len(want))]
        if len(g) != len(want):
            raise Mismatch(f"{where}: {len(g)} items, CPython {len(want)}")
        for i, (a, b) in enumerate(zip(g, want)):
            same(val, a, b, f"{where}[{i}]")
        return
    if isinstance(want, (str, type(None))) or callable(want):
        if hasattr(got, "idx"):
            from oracle import ref
            got = ref.NAMES[int(round(val.ev(got.idx)))]
        if got is not want and got != want:
            raise Mismatch(f"{where}: {show(got)}, CPython {want!r}")
        return
    if isinstance(got, SArr) and got.ndim == 0:
        got = got.get()
    g = val.ev(T.lift(got)) if not isinstance(got, (int, float, complex, bool, np.generic)) else got
    w = want.item() if isinstance(want, np.generic) else want
    if isinstance(w, bool) or isinstance(g, bool):
        if bool(g) != bool(w):
            raise Mismatch(f"{where}: {g}, CPython {w}")
        return
    if g != g and w != w:
        return
    if g != w and not abs(complex(g) - complex(w)) <= 1e-7 * (1e-3 + abs(complex(w))):
        raise Mismatch(f"{where}: {g!r}, CPython {w!r}")


class Expired(BaseException):
    pass


def expired(*a):
    raise Expired()


class Const:
    """an argument passed as it is (table indices)"""

    def __init__(self, v):
        self.v = v


def strip(x):
    return x.v if isinstance(x, Const) else x


def run_case(fn, args, kw=None, contracts=None, loop_contracts=None, fixed=(), facts=None, deadline=8, models=None):
    """None when both agree, 'skip: ...' when the verifier has no semantics for it, otherwise the disagreement"""
    kw = kw or {}
    real_args, real_kw = copy.deepcopy([strip(x) for x in args]), copy.deepcopy(kw)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            want = ("ok", fn(*real_args, **real_kw))
        except Exception as e:
            want = ("exc", e)
    ENGINE.set_facts([])
    ENGINE.stack.clear()
    mk = Sym(fixed)
    sargs, skw = mk(list(args)), mk(dict(kw))
    if facts:
        facts(sargs, skw)
    val = Valuation(0, impl=mk.impl)
    it = Interp(contracts=contracts or {}, loop_contracts=loop_contracts or {})
    if models:
        it.models.update(models)
    ENGINE.stack.append(Concolic(val))
    signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, deadline)
    ENGINE.deadline = time.time() + deadline
    val.deadline = time.time() + deadline
    try:
        try:
            got = ("ok", it.call(fn, tuple(sargs), skw))
        except ProgExc as e:
            got = ("exc", e.exc)
        if got[0] != want[0]:
            return f"{show(got)}, CPython {show(want)}"
        if got[0] == "exc":
            return None if type(got[1]) is type(want[1]) or isinstance(want[1], type(got[1])) else f"raises {got[1]!r}, CPython {want[1]!r}"
        for f in ENGINE.facts:
            if not isinstance(f, bool) and not val.ev(f):
                return f"the semantics introduced {show(f)}, which is false here"
        same(val, got[1], want[1])
        for a, b, i in zip(sargs, real_args, range(99)):
            if isinstance(b, np.ndarray) and b.dtype.kind in "fci":
                same(val, a, b, f"argument {i} afterwards")
    except Mismatch as e:
        return str(e)
    except (T.Unsupported, EvalError, RecursionError) as e:
        return f"skip: {type(e).__name__}: {str(e)[:200]}"
    except Expired:
        return "skip: time limit"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ENGINE.stack.clear()
        ENGINE.set_facts([])
        ENGINE.deadline = None
    return None


# --------------------------------------------------------------------------- cases
CASES = {}


def case(*names):
    def f(g):
        for n in names:
            CASES.setdefault(n, []).append(g)
        return g
    return f


@case("utide.ellipse_params.ut_cs2cep")
def k_cep(rng):
    n = int(rng.integers(2, 6))
    x = [rng.normal(size=n) for _ in range(4)]
    yield m_ell.ut_cs2cep, x
    yield m_ell.ut_cs2cep, x[:2]
    yield m_ell.ut_cs2cep, [rng.normal(size=(n, 4))]
    yield m_ell.ut_cs2cep, [rng.normal(size=(n, 2))]


@case("utide.astronomy.ut_astron")
def k_astron(rng):
    yield m_astron.ut_astron, [rng.uniform(600000, 800000, 3)]
    yield m_astron.ut_astron, [float(rng.uniform(600000, 800000))]


@case("utide.harmonics.FUV", "utide.harmonics.ut_E", "utide.harmonics.linearized_freqs")
def k_fuv(rng):
    tref = float(rng.uniform(700000, 740000))
    t = tref + np.sort(rng.uniform(-100, 100, 3))
    lind = Const(rng.permutation(140)[:4].astype(int))
    lat = float(rng.uniform(-80, 80))
    for fl in ([0, 0, 0, 0], [1, 0, 1, 0], [0, 1, 0, 1]):
        yield m_harm.FUV, [t, tref, lind, lat, fl], dict(), dict(fixed=(4,))
    yield m_harm.ut_E, [t, tref, rng.uniform(0.01, 0.2, 4), lind, lat, [0, 1, 0, 1], []], dict(), dict(fixed=(4,))
    yield m_harm.linearized_freqs, [tref]


@case("utide.robustfit.andrews", "utide.robustfit.bisquare", "utide.robustfit.cauchy", "utide.robustfit.fair", "utide.robustfit.huber",
      "utide.robustfit.logistic", "utide.robustfit.ols", "utide.robustfit.talwar", "utide.robustfit.welsch")
def k_weights(rng):
    for f in m_rob.wfuncdict.values():
        r = rng.normal(size=5) * 3
        r[1] = 0
        yield f, [r]
        yield f, [rng.normal(size=3) + 1j * rng.normal(size=3)]


@case("utide.robustfit.r_normed", "utide.robustfit.sigma_hat", "utide.robustfit.leverage")
def k_rnormed(rng):
    yield m_rob.sigma_hat, [rng.normal(size=6)]
    yield m_rob.sigma_hat, [rng.normal(size=5) + 1j * rng.normal(size=5)]
    yield m_rob.r_normed, [rng.normal(size=6), rng.random(6) + 0.1]
    yield m_rob.leverage, [rng.normal(size=(5, 2))]
    yield m_rob.leverage, [rng.normal(size=(5, 2)) + 1j * rng.normal(size=(5, 2))]


@case("utide.robustfit.robustfit")
def k_robust(rng):
    X, y = rng.normal(size=(6, 2)), rng.normal(size=6)
    for m in (1, 2):
        yield m_rob.robustfit, [X, y], dict(maxit=m, weight_function="cauchy")


@case("utide.confidence.cluster")
def k_cluster(rng):
    yield m_conf.cluster, [rng.uniform(0, 360, 6)], dict(ang=360)
    yield m_conf.cluster, [rng.uniform(0, 180, 6)], dict(ang=180)


@case("utide.confidence.nearestSPD", "utide.confidence._is_PD")
def k_spd(rng):
    a = rng.normal(size=(3, 3))
    yield m_conf._is_PD, [a @ a.T]
    yield m_conf._is_PD, [a + a.T - 5 * np.eye(3)]
    yield m_conf.nearestSPD, [a @ a.T]


@case("utide.confidence.ut_linci")
def k_linci(rng):
    z = lambda: complex(rng.normal(), rng.normal())
    yield m_conf.ut_linci, [z(), z(), z(), z()]
    yield m_conf.ut_linci, [float(x) for x in rng.random(4)]


@case("utide.utilities.complex_interp")
def k_interp(rng):
    xp = np.sort(rng.random(5))
    yield m_util.complex_interp, [rng.random(4), xp, rng.normal(size=5)]
    yield m_util.complex_interp, [rng.random(4), xp, rng.normal(size=5) + 1j * rng.normal(size=5)]


@case("utide.periodogram._psd", "utide.periodogram.fbndavg", "utide.periodogram._ls_cross", "utide.periodogram._lomb_freqs", "utide.periodogram._psd_lomb",
      "utide.periodogram.band_psd")
def k_psd(rng):
    for n in (8, 9):
        x = rng.normal(size=n)
        w = np.hanning(n)
        fr = np.arange(1, 5) / 12.0
        yield m_per._psd, [x, w, 1.0]
        yield m_per._psd, [x + 1j * rng.normal(size=n), w, 1.0]
        t = np.sort(rng.uniform(0, 20, n))
        yield m_per._ls_cross, [t, x + 1j * rng.normal(size=n), fr]
        yield m_per._psd_lomb, [t, x], dict(window=w, freq=fr)
    f = np.arange(0, 40) / 79.0
    yield m_per.fbndavg, [rng.random(40), f], dict(cfreq=np.array([0.0805, 0.0417]))
    yield m_per.fbndavg, [rng.random(40) + 1j * rng.random(40), f], dict(cfreq=np.array([0.0805]))
    yield m_per._lomb_freqs, [np.sort(rng.uniform(0, 24 * 6, 40))]


@case("utide.periodogram.band_psd")
def k_band(rng):
    t = np.arange(30.0)
    x = rng.normal(size=30)
    yield m_per.band_psd, [t, x, np.array([0.0805, 0.0417])], dict(equi=True)
    yield m_per.band_psd, [t[:29], (x + 1j * rng.normal(size=30))[:29], np.array([0.0805])], dict(equi=True)


@case("utide.confidence.band_averaged_psd_by_constit")
def k_noise(rng):
    t = 700000 + np.arange(30.0) / 24
    coef = Bunch(name=["M2", "K1"], aux=Bunch(frq=np.array([0.0805, 0.0417])))
    opt = Bunch(equi=True, twodim=False, lsfrqosmp=1)
    yield m_conf.band_averaged_psd_by_constit, [t, t, rng.normal(size=30), 30 / 24.0, coef, opt]


def solution(rng, n, two, conf=True, trend=False):
    names = np.array(list(rng.permutation(m_sel.ut_constants.const.name[1:60])[:n]), dtype=object)
    idx = [list(m_sel.ut_constants.const.name).index(x) for x in names]
    c = Bunch(name=names)
    for k in (("Lsmaj", "Lsmin", "theta", "g") if two else ("A", "g")):
        c[k] = rng.random(n)
        if conf:
            c[k + "_ci"] = rng.random(n) + 0.05
    c["aux"] = Bunch(frq=np.asarray(m_sel.ut_constants.const.freq)[idx].astype(float), lind=np.array(idx), reftime=730000.0, lat=40.0,
                     opt=Bunch(twodim=two, notrend=not trend, prefilt=[], nodsatlint=0, nodsatnone=0, gwchlint=0, gwchnone=1, nodiagn=0, epoch="python"))
    if two:
        c.update(umean=0.3, vmean=0.4, **(dict(uslope=0.01, vslope=0.02) if trend else {}))
    else:
        c.update(mean=0.3, **(dict(slope=0.01) if trend else {}))
    return c


@case("utide.diagnostics._PE", "utide.diagnostics._SNR", "utide.diagnostics.ut_diagn")
def k_diag(rng):
    for two in (False, True):
        c = solution(rng, 4, two)
        yield m_diag._PE, [c]
        yield m_diag._SNR, [c]


@case("utide._time_conversion._normalize_time", "utide._time_conversion._date2num", "utide._time_conversion._python_gregorian_datenum")
def k_time(rng):
    t = 700000 + rng.random(5) * 100
    yield m_time._normalize_time, [t, "python"]
    yield m_time._normalize_time, [t, "matlab"]
    yield m_time._normalize_time, [t, "2000-01-01"]
    m = np.ma.array(t, mask=[0, 1, 0, 0, 1])
    yield m_time._normalize_time, [m, "python"]


@case("utide._reconstruct._reconstruct")
def k_recon(rng):
    for two in (False, True):
        for trend in (False, True):
            c = solution(rng, 3, two, trend=trend)
            c["PE"], c["SNR"] = rng.random(3) * 100, rng.random(3) * 5
            t = 730000 + np.sort(rng.random(4)) * 30
            yield m_rec._reconstruct, [t, c], dict(verbose=False, constit=None, min_SNR=2.0, min_PE=20.0, epoch="python"), dict(fixed=(3,))


@case("utide._solve._slvinit")
def k_init(rng):
    t = 730000.0 + np.arange(8) / 24
    u, v = rng.normal(size=8), rng.normal(size=8)
    u[2] = np.nan
    kw = dict(cnstit="auto", ordercnstit=None, infer=None, conf_int=True, linci=True, notrend=False, rmin=1.0, white=False, newopts=Bunch(marker=1), RunTimeDisp=False, epoch="python")
    yield m_solve._slvinit, [t, u, None, 40.0], kw
    yield m_solve._slvinit, [t, u, np.ma.array(v, mask=[1, 0, 0, 0, 0, 0, 0, 1]), 40.0], kw
    t2 = np.sort(730000 + rng.random(7))
    yield m_solve._slvinit, [t2, u[:7], v[:7], 40.0], kw


@case("utide.constituent_selection.ut_cnstitsel")
def k_sel(rng):
    tref = float(rng.uniform(700000, 740000))
    yield m_sel.ut_cnstitsel, [tref, 1 / (24 * float(rng.uniform(10, 60))), "auto", None]
    yield m_sel.ut_cnstitsel, [tref, 0.1, ["M2", "S2", "K1"], None]


@case("utide._solve._solv1")
def k_solv1(rng):
    t = 730000.0 + np.arange(26) / 2.0
    opts = m_solve._process_opts(dict(constit=["M2", "K1"], conf_int="none", nodal=False, phase="raw", epoch="python"), False)
    yield m_solve._solv1, [t, rng.normal(size=26), None, 40.0], dict(opts), dict(deadline=40)
    o2 = m_solve._process_opts(dict(constit=["M2", "K1"], conf_int="linear", white=True, nodal=False, phase="raw", epoch="python"), False)
    yield m_solve._solv1, [t, rng.normal(size=26), None, 40.0], dict(o2), dict(deadline=40)


@case("utide._solve._reorder")
def k_reorder(rng):
    for two in (False, True):
        for order in ("PE", "SNR", "frequency"):
            c = solution(rng, 4, two)
            c["PE"], c["SNR"] = rng.random(4) * 100, rng.random(4) * 5
            del c["name"]
            c["name"] = np.array([1.0, 2.0, 3.0, 4.0])          # names play no part in these orders
            yield m_solve._reorder, [c, Bunch(ordercnstit=order, conf_int=True, twodim=two)]


@case("utide._reconstruct.reconstruct")
def k_wrapper(rng):
    for two in (False, True):
        c = solution(rng, 3, two)
        c["PE"], c["SNR"] = rng.random(3) * 100, rng.random(3) * 5
        c["aux"]["opt"]["nodsatnone"] = 1
        t = 730000 + np.sort(rng.random(4)) * 30
        yield m_rec.reconstruct, [t, c], dict(verbose=False, constit=None, min_SNR=0.0, min_PE=20.0, epoch="python"), dict(fixed=(3,))
        m = np.ma.array(t, mask=[0, 1, 0, 0])
        yield m_rec.reconstruct, [m, c], dict(verbose=False, epoch="matlab"), dict(fixed=(3,))


@case("utide.confidence._confidence")
def k_conf(rng):
    n, nt = 2, 24
    for two in (False, True):
        for white in (True, False):
            t = 730000 + np.arange(nt) / 12.0
            E = np.exp(2j * np.pi * 24 * (t[:, None] - t.mean()) * np.array([[0.0805, 0.0417]]))
            B = np.hstack([E, E.conj(), np.ones((nt, 1))])
            x = rng.normal(size=nt) + (1j * rng.normal(size=nt) if two else 0)
            m = np.linalg.lstsq(B, x.astype(complex), rcond=None)[0]
            xm = B @ m
            xm = xm if two else xm.real
            X = [rng.normal(size=n) for _ in range(4 if two else 2)] + ([] if two else [[], []])
            c = Bunch(nNR=n, nR=0, nI=0, name=["M2", "K1"], aux=Bunch(frq=np.array([0.0805, 0.0417])))
            for k in (("Lsmaj", "Lsmin", "theta", "g") if two else ("A", "g")):
                c[k] = rng.random(n)
            o = Bunch(white=white, linci=True, twodim=two, infer=None, nrlzn=20, equi=True, lsfrqosmp=1)
            yield m_conf._confidence, [c, Bunch(R=[]), o, t, x - xm, t, 2.0, x, xm, np.ones(nt), m, B] + X, {}, dict(fixed=(n,), deadline=25)


@case("utide._solve._process_opts", "utide._solve._translate_opts")
def k_opts(rng):
    yield m_solve._process_opts, [dict(constit="auto"), False]
    yield m_solve._process_opts, [dict(constit=["M2"], conf_int="none", trend=False, nodal="linear_time"), True]
    yield m_solve._process_opts, [dict(method="robust", phase="raw", white=True), True]
    yield m_solve._process_opts, [dict(method="nonsense"), True]
    yield m_solve._process_opts, [dict(undocumented=1), True]


def cases(names, seed):
    done = set()
    for n in names:
        for g in CASES.get(n, ()):
            if g in done:
                continue
            done.add(g)
            for c in g(np.random.default_rng([seed, len(g.__name__), sum(map(ord, g.__name__))])):
                yield c


def check(names, seed=1, seconds=20, heavy=False):
    """runs, agreements, skipped and disagreements for the functions named"""
    out = {"runs": 0, "agree": 0, "skipped": [], "mismatches": [], "functions": []}
    end = time.time() + seconds
    for c in cases(sorted(names), seed):
        fn, args = c[0], c[1]
        kw = c[2] if len(c) > 2 else {}
        opt = c[3] if len(c) > 3 else {}
        if time.time() > end:
            break
        if opt.get("deadline", 0) > 30 and not heavy:
            continue
        q = f"{fn.__module__}.{fn.__name__}"
        try:
            r = run_case(fn, args, kw, **opt)
        except Exception as e:
            r = f"skip: {type(e).__name__}: {str(e)[:150]}"
        out["runs"] += 1
        if r is None:
            out["agree"] += 1
            if q not in out["functions"]:
                out["functions"].append(q)
        elif r.startswith("skip"):
            out["skipped"].append(f"{q}: {r}")
        else:
            out["mismatches"].append(f"{q}: {r}")
    return out


def main():
    sys.setrecursionlimit(20000)
    names = [n for n in CASES if len(sys.argv) < 2 or any(n.split(".", 1)[1].startswith(a) or n.endswith(a) for a in sys.argv[1:])]
    t0 = time.time()
    r = check(names, seconds=600, heavy=True)
    print({k: r[k] for k in ("runs", "agree")}, round(time.time() - t0, 1), "s")
    for k in ("functions", "skipped", "mismatches"):
        for x in r[k]:
            print(f"  {k}: {x}"[:300])


if __name__ == "__main__":
    main()
