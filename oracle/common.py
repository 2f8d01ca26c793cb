import copy
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("UTIDE_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
import utide  # noqa: E402
from utide import reconstruct, solve  # noqa: E402

assert os.path.abspath(utide.__file__).startswith(os.path.abspath(REPO)), utide.__file__
from . import ref  # noqa: E402
from .ref import Fit, Prep  # noqa: E402


class Fail(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Skip(Exception):
    pass


def angdiff(a, b, period=360.0):
    return (np.asarray(a) - np.asarray(b) + period / 2) % period - period / 2


def close(key, got, want, tol, what="", scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Fail(key, f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    s = scale if scale is not None else max(1e-300, float(np.max(np.abs(want[np.isfinite(want)])) if np.isfinite(want).any() else 0))
    d = np.abs(got - want)
    bad = ~(d <= tol * s) & ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        k = int(np.argmax(np.where(np.isnan(d), np.inf, d).ravel()))
        raise Fail(key, f"{what}: got {got.ravel()[k]!r}, expected {want.ravel()[k]!r} at {np.unravel_index(k, got.shape)} "
                        f"(tolerance {tol * s:.3g}; {int(bad.sum())} of {bad.size} differ)")


def close_ang(key, got, want, tol_deg, what="", period=360.0):
    d = np.abs(angdiff(got, want, period))
    tol = np.broadcast_to(np.asarray(tol_deg, dtype=float), d.shape)
    bad = ~(d <= tol)
    if bad.any():
        k = int(np.argmax(np.where(np.isnan(d), np.inf, d - tol)))
        raise Fail(key, f"{what}: got {np.ravel(got)[k]!r} deg, expected {np.ravel(want)[k]!r} deg at {k} (tolerance {tol.ravel()[k]:.3g})")


def check(key, cond, msg):
    if not cond:
        raise Fail(key, msg)


LATS = (0.0, 90.0, -90.0, 5.0, -5.0, 3.0, -3.0, 4.999, -4.999, 1e-9, -1e-9, 45, -45, 0)


class Case:
    """A generated record with its options; everything derived from rng."""

    def __init__(self, rng, twod=None, kinds=("regular", "irregular"), infer=False, noise=None, max_const=6,
                 main=None, span=None, gaps=False, nodal=None, phase=None, trend=None, nmax=700, dod=True,
                 min_const=1, sep=1.3, long=False):
        for _ in range(60):
            if self._try(rng, twod, kinds, infer, noise, max_const, main, span, gaps, nodal, phase, trend, nmax,
                         min_const, sep, long):
                return
        raise Skip("no well conditioned case")

    def _try(self, rng, twod, kinds, infer, noise, max_const, main, span, gaps, nodal, phase, trend, nmax, min_const, sep, want_long=False):
        c = lambda x: x[int(rng.integers(len(x)))]
        self.twod = bool(rng.integers(2)) if twod is None else twod
        # now and then a long record, many constituents, or values of another order of magnitude
        rare = rng.random()
        long = want_long or main is None and rare < 0.02 and nmax >= 700
        many = not long and main is None and 0.02 < rare < 0.05 and nmax >= 700 and span is None
        if long:
            nmax, max_const = int(rng.integers(2000, 6500)), min(max_const, 3)
        if many:
            nmax, max_const, min_const, span = 1500, 45, max(min_const, 18), float(rng.uniform(190, 380))
        T = c([2.5, 6, 15, 31, 75, 190, 370]) * float(rng.uniform(0.85, 1.15)) if span is None else span
        if main is not None and span is None:
            f = ref.FREQ[main]
            T = max(T, 1.5 * sep / (f * 24), 4.0)
            T = min(T, 800)
        dt_choices = [1 / 24, 0.5 / 24, 2 / 24, 3 / 24, 1 / 24 * 1.01]
        dt = c(dt_choices)
        n = int(T / dt) + 1
        if long:
            n = nmax
        if n > nmax:
            if main is not None or rng.integers(2):
                dt = T / nmax
                # never alias badly: keep dt below 4 h unless only slow constituents are used
            n = min(n, nmax)
        n = max(n, 40) + int(rng.integers(2))
        t0 = c([float(rng.uniform(693961, 763000)), float(rng.uniform(723000, 740000)),
                float(rng.integers(700000, 750000)), float(rng.uniform(1, 1.2e6)) if rng.random() < 0.2 else 735000.25])
        self.kind = c(kinds)
        t = t0 + dt * np.arange(n)
        if self.kind == "irregular":
            keep = np.sort(rng.choice(n, size=max(30, int(n * rng.uniform(0.6, 0.95))), replace=False))
            t = t[keep] + rng.uniform(-0.3, 0.3, len(keep)) * dt
        self.t = t
        self.T = T = t[-1] - t[0]
        self.lat = c(LATS) if rng.random() < 0.45 else float(rng.uniform(-90, 90))
        self.nodal = c([True, True, False, "linear_time"]) if nodal is None else nodal
        self.phase = c(["Greenwich", "Greenwich", "linear_time", "raw"]) if phase is None else phase
        self.trend = bool(rng.integers(2)) if trend is None else trend
        fmax = 0.45 / (dt * 24)
        cand = [k for k in range(ref.NC) if k not in ref.FRACTIONAL and ref.FREQ[k] > 0]
        rng.shuffle(cand)
        pref = [ref.INDEX[x] for x in ("M2", "S2", "K1", "O1", "M4", "N2", "Q1", "MSF", "M6", "MK3")]
        if rng.random() < 0.5:
            cand = pref + cand
        want = int(rng.integers(min_const, max_const + 1))
        chosen = [] if main is None else [main]
        if main is not None and not (ref.FREQ[main] < fmax and ref.FREQ[main] * 24 * T > 1.0):
            if main is not None and ref.FREQ[main] >= fmax:
                return False
        for k in cand:
            if len(chosen) >= want:
                break
            f = ref.FREQ[k]
            if f > fmax or f * 24 * T < sep or k in chosen:
                continue
            if all(abs(f - ref.FREQ[j]) * 24 * T >= sep for j in chosen):
                chosen.append(k)
        if len(chosen) < min_const:
            return False
        order = rng.permutation(len(chosen))
        self.lind = [chosen[i] for i in order]
        self.names = [ref.NAMES[k] for k in self.lind]
        # inference: reference constituents from the chosen, inferred ones anything else
        self.infer_opt = None
        self.infer_ref = None
        nr_lind = list(self.lind)
        if infer:
            nref = 1 + int(rng.integers(min(6 if rng.random() < 0.25 else 2, len(self.lind))))
            refs = list(rng.choice(self.lind, nref, replace=False))
            pool = [k for k in range(ref.NC) if k not in self.lind and k not in ref.FRACTIONAL and ref.FREQ[k] > 0
                    and ref.FREQ[k] < fmax]
            ninf = nref + int(rng.integers(0, 3))
            if len(pool) < ninf:
                return False
            infs = list(rng.choice(pool, ninf, replace=False))
            owner = [refs[i] if i < nref else refs[int(rng.integers(nref))] for i in range(ninf)]
            perm = rng.permutation(ninf)
            infs = [int(infs[i]) for i in perm]
            owner = [int(owner[i]) for i in perm]
            m = 2 * ninf if self.twod else ninf
            ratios = rng.uniform(0.05, 0.6, m)
            offs = rng.uniform(-200, 200, m)
            self.infer_opt = dict(inferred_names=[ref.NAMES[i] for i in infs], reference_names=[ref.NAMES[i] for i in owner],
                                  amp_ratios=list(ratios) if rng.integers(2) else ratios, phase_offsets=list(offs))
            Rp = ratios[:ninf] * np.exp(1j * np.radians(offs[:ninf]))
            Rm = Rp.conj() if not self.twod else ratios[ninf:] * np.exp(-1j * np.radians(offs[ninf:]))
            self.infer_ref = []
            for r in dict.fromkeys(owner):
                self.infer_ref.append((r, [(infs[i], Rp[i], Rm[i]) for i in range(ninf) if owner[i] == r]))
            gone = set(owner) | set(infs)
            nr_lind = [k for k in self.lind if k not in gone]
        self.nr_lind = nr_lind
        n = len(t)
        self.miss = np.zeros(n, bool)
        if gaps:
            k = int(rng.integers(1, max(2, n // 8)))
            self.miss[rng.choice(n, k, replace=False)] = True
            if rng.random() < 0.3:
                self.miss[:3] = True
            if rng.random() < 0.3:
                self.miss[-2:] = True
        base = np.where(self.miss, np.nan, 0.0)
        self.prep = Prep(t, base, base if self.twod else None)
        probe = Fit(self.prep, nr_lind, self.lat, self.nodal, self.phase, self.trend, self.infer_ref)
        if not (probe.cond < 25) or len(self.prep.t) < 2 * probe.A.shape[1] + 4:
            return False
        # synthetic truth in the model's own column space
        A = probe.columns(t)
        ncol = A.shape[1]
        if self.twod:
            m = rng.normal(size=ncol) + 1j * rng.normal(size=ncol)
            if rng.random() < 0.1:      # nearly rectilinear / circular
                m[: len(nr_lind)] *= 1e-3
        else:
            m = rng.normal(size=ncol)
        m = m / probe.scale * np.sqrt(n)
        amp = 10.0 ** float(rng.uniform(-2, 2) if rng.random() < 0.85 else rng.uniform(-8, 6))
        self.amp = amp
        sig = A @ m * amp
        if noise is None:
            noise = c([0.0, 0.05, 0.5])
        self.noise = noise
        nz = noise * amp * rng.normal(size=n)
        if self.twod:
            nz = nz + 1j * noise * amp * rng.normal(size=n) * float(rng.uniform(0.5, 2))
        self.m_true, self.A_t = m * amp, A
        x = sig + nz
        if not self.twod:
            x = x.real if np.iscomplexobj(x) else x
        self.x_full = x
        self.truth = sig if self.twod else np.real(sig)
        self.u = np.where(self.miss, np.nan, x.real)
        self.v = np.where(self.miss, np.nan, x.imag) if self.twod else None
        return True

    def fit(self, trend=None, weights=None):
        p = Prep(self.t, self.u, self.v)
        return Fit(p, self.nr_lind, self.lat, self.nodal, self.phase, self.trend if trend is None else trend,
                   self.infer_ref, weights)

    def opts(self, **kw):
        o = dict(epoch="python", constit=list(self.names), nodal=self.nodal, phase=self.phase, trend=self.trend,
                 conf_int="none", verbose=False, lat=self.lat)
        if self.infer_opt is not None:
            o["infer"] = utide.utilities.Bunch(self.infer_opt) if len(self.names) % 2 else dict(self.infer_opt)
        o.update(kw)
        return o

    def solve(self, **kw):
        o = self.opts(**kw)
        t, u, v = o.pop("t", self.t), o.pop("u", self.u), o.pop("v", self.v)
        return call(solve, t, u, v, **o)

    def describe(self):
        return (f"{'2-D' if self.twod else '1-D'} {self.kind} n={len(self.t)} t0={self.t[0]!r} T={self.T:.3f} d lat={self.lat!r} "
                f"nodal={self.nodal!r} phase={self.phase!r} trend={self.trend} constit={self.names} "
                f"infer={self.infer_opt} missing={int(self.miss.sum())} noise={self.noise}")


def call(f, *a, **k):
    """Call the code under test; an exception on a valid request is a failure."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(*a, **k)
    except Exception as e:
        raise Fail("exception", f"{f.__name__} raised {type(e).__name__}: {e}")


def usable(mod, name, *a, **k):
    """Is there still an internal function of this name that takes these arguments?  (A check of an internal function
    is skipped when a restructuring has removed the function; what users see is checked through the public functions.)"""
    import inspect
    f = getattr(mod, name, None)
    if not callable(f):
        return None
    try:
        inspect.signature(f).bind(*a, **k)
    except (TypeError, ValueError):
        return None
    return f


def must_raise(key, what, f, *a, kinds=(Exception,), **k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                f(*a, **k)
    except kinds:
        return
    except Exception as e:
        raise Fail(key, f"{what}: raised {type(e).__name__} ({e}), expected {[x.__name__ for x in kinds]}")
    raise Fail(key, f"{what}: accepted")


def recon(c, t, coef, **k):
    kw = dict(epoch="python", verbose=False, min_SNR=0, min_PE=0)
    kw.update(k)
    r = call(reconstruct, t, coef, **kw)
    return (r.u + 1j * r.v) if c.twod else r.h


def idx_of(coef, names):
    L = list(coef["name"])
    return [L.index(n) for n in names]


def params(coef, twod, ix=slice(None)):
    if twod:
        return tuple(np.asarray(coef[k])[ix] for k in ("Lsmaj", "Lsmin", "theta", "g"))
    return tuple(np.asarray(coef[k])[ix] for k in ("A", "g"))


def synth(coef, twod, t, ix=None, nodal=True, phase="Greenwich", lat=0, mean=True):
    """Reference synthesis from the parameters in a solution."""
    ix = np.arange(len(coef["name"])) if ix is None else np.asarray(ix, dtype=int)
    lind = [ref.INDEX[n] for n in np.asarray(coef["name"])[ix]]
    tref = coef["aux"]["reftime"]
    E = ref.basis(t, tref, lind, lat, nodal, phase)
    if twod:
        Xu, Yu, Xv, Yv = ref.from_ellipse(*params(coef, True, ix))
        y = E.real @ (Xu + 1j * Xv) + E.imag @ (Yu + 1j * Yv)
        if mean:
            y = y + coef["umean"] + 1j * coef["vmean"]
            if "uslope" in coef:
                y = y + (coef["uslope"] + 1j * coef["vslope"]) * (np.asarray(t) - tref)
        return y
    A, g = params(coef, False, ix)
    g = np.radians(g)
    y = E.real @ (A * np.cos(g)) + E.imag @ (A * np.sin(g))
    if mean:
        y = y + coef["mean"]
        if "slope" in coef:
            y = y + coef["slope"] * (np.asarray(t) - tref)
    return y


def compare_params(key, got, want, twod, scale, tol=1e-7):
    """parameters equal up to rounding; angles weighted by amplitude"""
    deg = 180 / np.pi
    if twod:
        L, l, th, g = got
        L2, l2, th2, g2 = want
        close(key, L, L2, tol, "semi-major axis", scale)
        close(key, l, l2, tol, "semi-minor axis", scale)
        # compare the harmonics themselves (orientation/phase are ill-conditioned for circular motion)
        for a, b, nm in zip(ref.from_ellipse(L, l, th, g), ref.from_ellipse(L2, l2, th2, g2), ("Xu", "Yu", "Xv", "Yv")):
            close(key, a, b, tol * 3, f"coefficient {nm} rebuilt from the ellipse", scale)
        e = tol * scale * deg * 2
        with np.errstate(divide="ignore", invalid="ignore"):
            p, m = (L2 + l2) / 2, (L2 - l2) / 2
            ta = e * (1 / p + 1 / m) + 1e-9
        ok = np.isfinite(ta) & (ta < 20)
        if ok.any():
            # the pair (theta, g) is ambiguous at the wrap: theta ~ theta+180 with g ~ g+180
            dth = angdiff(th[ok], th2[ok], 180)
            if (np.abs(dth) > ta[ok]).any():
                raise Fail(key, f"orientation: got {th[ok]}, expected {th2[ok]}")
    else:
        A, g = got
        A2, g2 = want
        close(key, A, A2, tol, "amplitude", scale)
        with np.errstate(divide="ignore"):
            ta = tol * scale / A2 * deg * 2 + 1e-9
        ok = ta < 20
        close_ang(key, g[ok], g2[ok], ta[ok], "phase")


def deep_eq(a, b, path=""):
    """None if identical, else a description (NaN equal to NaN; masked arrays compared with masks)."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return f"{path}: keys differ"
        for k in a:
            r = deep_eq(dict.__getitem__(a, k), dict.__getitem__(b, k), f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        if type(a) is not type(b):
            return f"{path}: type"
        if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
            return f"{path}: mask differs"
        return deep_eq(np.asarray(a.data), np.asarray(b.data), path)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: array shape or dtype differs"
        if a.dtype.kind == "O":
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                r = deep_eq(x, y, f"{path}[{i}]")
                if r:
                    return r
            return None
        if a.dtype.kind in "fc":
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
        elif a.dtype.kind in "mM":
            ok = (a == b) | (np.isnat(a) & np.isnat(b))
        else:
            ok = a == b
        if not np.all(ok):
            return f"{path}: values differ"
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: sequence differs"
        for i, (x, y) in enumerate(zip(a, b)):
            r = deep_eq(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    try:
        if a is b or a == b or (a != a and b != b):
            return None
    except Exception:
        return None
    return f"{path}: {a!r} != {b!r}"


clone = copy.deepcopy
