"""Residual noise spectra: periodograms, band averages, noise level per constituent."""
from __future__ import annotations

from ..lib import *  # noqa

Bunch = m_util.Bunch
BANDS = [tuple(T.Fraction(repr(float(x))) for x in b) for b in np.array([
    [0.00010, 0.00417], [0.03192, 0.04859], [0.07218, 0.08884], [0.11243, 0.12910], [0.15269, 0.16936], [0.19295, 0.20961],
    [0.23320, 0.25100], [0.26000, 0.29000], [0.30000, 0.50000]])]           # the published bands (cycles per hour)
TB = np.array([[float(x) for x in b] for b in BANDS])


def same(s, name, a, b):
    """two 1-d arrays are equal"""
    if a is b:
        s.true(name, True)
        return
    a, b = A.as_sarr(a), A.as_sarr(b)
    s.true(name + " (length)", a.ndim == b.ndim and A.same_dim(a.shape[0], b.shape[0]))
    k = gen(b.shape[0])
    s.eq(name, a.get(k), b.get(k))


def band_table(s, x):
    x = np.asarray(x)
    s.true("the published frequency bands", x.shape == TB.shape and bool((x == TB).all()))


# ------------------------------------------------------------------ band_averaged_psd_by_constit
def noise_unit(s, equi, two, gaps):
    with s.unit(f"band_averaged_psd_by_constit[{'regular' if equi else 'irregular'},{'vector' if two else 'scalar'}{',with gaps' if gaps else ''}]", replay=fuzz_noise):
        def body():
            n = nvar("n", 2)
            nin = nvar("nin", 2)
            if equi and gaps:
                ENGINE.push(T.cmp_("lt", n, nin))
            else:
                nin = n
            nc = nvar("nc", 1)
            t = rarr("t", n)
            tin = rarr("tin", nin)
            e = carr("e", n) if two else rarr("e", n)
            frq = rarr("frq", nc, nonneg=True)
            elor = T.var("elor", nonneg=True)
            osamp = T.var("osamp", "I", True)
            opt = Bunch(equi=equi, twodim=two, lsfrqosmp=osamp)
            calls = []

            def c_band_psd(it, t_, e_, cfrq, equi=True, frqosamp=1):
                calls.append(1)
                s.true("Fourier for regular times, Lomb-Scargle otherwise", equi == opt.equi)
                same(s, "the lines of all constituents are left out", cfrq, frq)
                if opt.equi:
                    same(s, "times handed on", t_, tin)
                    if gaps:
                        want = MODELS_interp(it, tin, t, e)
                        same(s, "residual interpolated across the gaps", e_, want)
                    else:
                        same(s, "residual handed on", e_, e)
                else:
                    same(s, "times handed on", t_, t)
                    same(s, "residual handed on", e_, e)
                    s.eq("oversampling of the options", frqosamp, osamp)
                P = Bunch(fbnd=TB.copy())
                for q in ("Puu", "Pvv", "Puv")[: 3 if two else 1]:
                    P[q] = rarr("ba" + q, 9, nonneg=q != "Puv", owner="result")
                return P

            it = Interp(contracts={"utide.periodogram.band_psd": c_band_psd})
            out = it.call(m_conf.band_averaged_psd_by_constit, (tin, t, e, elor, Bunch(aux=Bunch(frq=frq)), opt))
            s.used(it)
            s.true("one spectrum", len(calls) == 1)
            s.true("power of u, v and their co-spectrum", isinstance(out, tuple) and len(out) == 3)
            k = gen(nc)
            f = T.lift(frq.get(k))
            for q, P in zip(("Puu", "Pvv", "Puv"), out):
                if q != "Puu" and not two:
                    s.true(f"{q} only for vectors", P is None)
                    continue
                P = A.as_sarr(P)
                s.true(f"{q}: one per constituent", A.same_dim(P.shape[0], nc))
                want = T.ZERO
                for b, (lo, hi) in enumerate(BANDS):
                    want = T.ite(T.and_(T.cmp_("le", T.pconst(lo), f), T.cmp_("le", f, T.pconst(hi))),
                                 T.app("ba" + q, T.pconst(b), nonneg=q != "Puv") / (24 * elor), want)
                s.eq(f"{q}: mean density of the band that contains the constituent times the frequency resolution", P.get(k), want)
            s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def MODELS_interp(it, x, xp, fp):
    from .. import npmodel
    f = npmodel.MODELS[id(np.interp)][1]
    if A.as_sarr(fp).dt == "c":
        a, b = f(it, x, xp, fp.real), f(it, x, xp, fp.imag)
        return A.ew(lambda p, q: Cx(T.lift(p), T.lift(q)), a, b)
    return f(it, x, xp, fp)


# ------------------------------------------------------------------ _psd
def hann(j, n):
    """periodic Hann taper"""
    return (1 - T.cis(2 * T.PI * T.lift(j) / T.lift(n))[0]) / 2


def dft(n, x, k):
    return Cx.of(T.sum_(n, lambda j: Cx.of(x(j)) * T.exp_(Cx(T.ZERO, -2 * T.PI * T.lift(k) * T.lift(j) / T.lift(n)))))


def psd_unit(s, two):
    with s.unit(f"_psd[{'cross' if two else 'auto'}]"):
        def body():
            half = nvar("half", 2)
            n = A.dim(2 * half)
            e = carr("e", n) if two else rarr("e", n)
            w = rarr("w", n)
            fs = T.var("fs", nonneg=True)
            it = Interp()
            out = A.as_sarr(it.call(m_per._psd, (e, w, fs)))
            s.used(it)
            s.true("one line per frequency from zero to Nyquist", A.same_dim(out.shape[0], A.dim(half + 1)))
            k = gen(A.dim(half + 1))
            ev = lambda part: (lambda j: getattr(Cx.of(T.lift(e.get(j))), part))
            mean = lambda f: T.sum_(n, f) / T.lift(n)
            parts = {}
            for part in ("re", "im")[: 2 if two else 1]:
                f = ev(part)
                m = mean(f)
                parts[part] = dft(n, lambda j: (f(j) - m) * T.app("w", T.lift(j)), k)
            cross = parts["re"].conj() * parts["im"] if two else Cx(parts["re"].re ** 2 + parts["re"].im ** 2, T.ZERO)
            norm = 1 / (fs * T.sum_(n, lambda j: T.app("w", T.lift(j)) ** 2))
            inner = T.and_(T.cmp_("le", 1, k), T.cmp_("lt", k, half))
            want = cross * Cx(norm * T.ite(inner, T.pconst(2), T.ONE), T.ZERO)
            got = Cx.of(T.lift(out.get(k)))
            s.eq("one-sided density: windowed periodogram without the mean, interior lines doubled, dt over the window's energy",
                 got, want) if two else s.eq("one-sided density", got.re, want.re)
            s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


# ------------------------------------------------------------------ fbndavg
def band_mean(it, P, freq, cfreq, nf, lo, hi):
    """mean of the lines of P in a band, without the lines nearest the frequencies cfreq; nan when none is left"""
    from .. import npmodel
    M = npmodel.MODELS
    ss = lambda v: M[id(np.searchsorted)][1](it, freq, v)
    near = M[id(np.interp)][1](it, cfreq, freq, A.as_sarr(M[id(np.arange)][1](it, nf)))
    near = A.ew(npmodel._rint, near)
    key = A.arr_key(npmodel.astype(near, int))
    out = lambda j: T.bapp("member", key, T.lift(j))
    i0 = T.lift(ss(float(lo)))
    i1 = T.min_(T.lift(nf), T.lift(ss(float(hi))) + 1)
    n = i1 - i0 if A.res(T.cmp_("lt", i1 - i0, 0)) is False else T.max_(i1 - i0, T.ZERO)
    tot = T.sum_(n, lambda j: T.ite(out(i0 + j), T.ZERO, P(i0 + j)))
    cnt = T.sum_(n, lambda j: T.ite(out(i0 + j), T.ZERO, T.ONE))
    return tot, cnt


def band_unit(s, cplx):
    with s.unit(f"fbndavg[{'cross' if cplx else 'auto'}]"):
        def body():
            nf = nvar("nf", 2)
            nc = nvar("nc", 1)
            P = carr("P", nf) if cplx else rarr("P", nf, nonneg=True)
            freq, cfreq = rarr("freq", nf, nonneg=True), rarr("cfreq", nc, nonneg=True)
            it = Interp()
            out = A.as_sarr(it.call(m_per.fbndavg, (P, freq, cfreq)))
            s.used(it)
            s.true("one mean per published band", A.same_dim(out.shape[0], 9) and not out.is_ma)
            s.true("nothing passed in is overwritten", not it.frame_violations)
            for b, (lo, hi) in enumerate(BANDS):
                for part in ("re", "im")[: 2 if cplx else 1]:
                    f = (lambda j: T.app("P_" + part, T.lift(j))) if cplx else (lambda j: T.app("P", T.lift(j), nonneg=True))
                    tot, cnt = band_mean(it, f, freq, cfreq, nf, lo, hi)
                    none = T.eq_(cnt, 0)
                    got = getattr(Cx.of(T.lift(out.get(b))), part)
                    with using([T.not_(none)]):
                        s.eq(f"band {b}, {part}: mean of the lines inside, without those nearest the constituents", got, tot / cnt)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


# ------------------------------------------------------------------ band_psd (callers of the three functions above)
def tag_of(P):
    ats = {a.args[0] for a in T.atoms_of(T.lift(Cx.of(T.lift(A.as_sarr(P).get(0))).re)) if a.kind == "app"}
    return ats


def band_psd_unit(s, equi, two, odd):
    with s.unit(f"band_psd[{'regular' if equi else 'irregular'},{'vector' if two else 'scalar'},{'odd' if odd else 'even'} length]"):
        def body():
            nc = nvar("nc", 1)
            half = nvar("half", 3)
            nt = A.dim(2 * half + odd)
            ne = A.dim(2 * half)
            t = rarr("t", nt)
            e = carr("e", nt) if two else rarr("e", nt)
            cfrq = rarr("cfrq", nc, nonneg=True)
            osamp = nvar("osamp", 1)
            dt = 24 * (T.app("t", T.ONE) - T.app("t", T.ZERO))
            ENGINE.push(T.cmp_("lt", 0, dt))
            part = {"u": lambda j: T.app("e_re", T.lift(j)) if two else T.app("e", T.lift(j)), "v": lambda j: T.app("e_im", T.lift(j))}
            window = SArr((ne,), lambda idx: hann(idx[0], ne), "f")
            comp = {q: SArr((ne,), lambda idx, q=q: part[q](idx[0]), "f") for q in ("u", "v")[: 2 if two else 1]}
            full = SArr((ne,), lambda idx: Cx(part["u"](idx[0]), part["v"](idx[0])), "c") if two else comp["u"]
            hours = SArr((ne,), lambda idx: 24 * T.app("t", T.lift(idx[0])), "f")
            lines = SArr((A.dim(half + 1),), lambda idx: T.lift(idx[0]) / (T.lift(ne) * dt), "f") if equi else rarr("lf", nvar("nlf", 1))
            spec = {}

            def density(tag, m):
                if tag == "uv":
                    return SArr((m,), lambda idx: Cx(T.app("D_uv_re", T.lift(idx[0])), T.app("D_uv_im", T.lift(idx[0]))), "c", owner="result")
                return rarr("D_" + tag, m, nonneg=True, owner="result")

            def c_psd(it, e_, window_, fs):
                e_ = A.as_sarr(e_)
                tag = "uv" if e_.dt == "c" else "v" if any(a.args[0] == "e_im" for a in T.atoms_of(T.lift(e_.get(0))) if a.kind == "app") else "u"
                same(s, f"{tag}: residual, its last sample dropped when odd", e_, full if tag == "uv" else comp[tag])
                same(s, f"{tag}: Hann taper", window_, window)
                s.eq(f"{tag}: sampling frequency in cycles per hour", fs, 1 / dt)
                return density(tag, A.dim(half + 1))

            def c_fbndavg(it, P, freq, cfreq=None, fbands=None):
                P = A.as_sarr(P)
                names = {a.args[0] for a in T.atoms_of(Cx.of(T.lift(P.get(0))).re) if a.kind == "app"}
                tag = [q for q in ("u", "v", "uv") if names & {"D_" + q, "D_" + q + "_re"}]
                if len(tag) != 1:
                    raise Unsupported("average of something else than a density")
                tag = tag[0]
                same(s, f"{tag}: density averaged as it is", P, density(tag, lines.shape[0]))
                same(s, f"{tag}: frequencies of the lines", freq, lines)
                same(s, f"{tag}: constituent lines left out", cfreq, cfrq)
                s.true(f"{tag}: published bands", fbands is None or fbands is m_per.freq_bands)
                if tag == "uv":
                    return SArr((9,), lambda idx: Cx(T.app("M_uv_re", T.lift(idx[0])), T.app("M_uv_im", T.lift(idx[0]))), "c", owner="result")
                return rarr("M_" + tag, 9, nonneg=True, owner="result")

            def c_freqs(it, t_, fbands=None, ofac=1, max_per_band=500):
                same(s, "times in hours", t_, hours)
                s.eq("oversampling handed on", ofac, osamp)
                s.true("published bands", fbands is None or fbands is m_per.freq_bands)
                return lines

            def c_lomb(it, t_, x, window=None, freq=None, ofac=1):
                same(s, "times in hours", t_, hours)
                same(s, "residual, its last sample dropped when odd", x, full)
                same(s, "Hann taper", window, SArr((ne,), lambda idx: hann(idx[0], ne), "f"))
                same(s, "frequencies of the bands", freq, lines)
                P = Bunch(F=lines, Pxx=density("u", lines.shape[0]))
                if two:
                    P.Pyy, P.Pxy = density("v", lines.shape[0]), density("uv", lines.shape[0])
                return P

            it = Interp(contracts={"utide.periodogram._psd": c_psd, "utide.periodogram.fbndavg": c_fbndavg,
                                   "utide.periodogram._lomb_freqs": c_freqs, "utide.periodogram._psd_lomb": c_lomb})
            P = it.call(m_per.band_psd, (t, e, cfrq), {"equi": equi, "frqosamp": osamp})
            s.used(it)
            band_table(s, P["fbnd"])
            s.true("spectra of the components present", {k for k in P if k != "fbnd"} == ({"Puu", "Pvv", "Puv"} if two else {"Puu"}))
            b = gen(9)
            for q in ("u", "v")[: 2 if two else 1]:
                s.eq(f"P{q}{q} averages the density of {q}", A.as_sarr(P["P" + q + q]).get(b), T.app("M_" + q, b, nonneg=True))
            if two:
                s.eq("Puv averages the co-spectrum", A.as_sarr(P["Puv"]).get(b), T.app("M_uv_re", b))
            s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


# ------------------------------------------------------------------ Lomb-Scargle
def lomb_unit(s, two, one=False):
    with s.unit(f"_psd_lomb[{'vector' if two else 'scalar'}{', a single frequency' if one else ''}]", replay=fuzz_lomb):
        def body():
            from .. import npmodel
            M = npmodel.MODELS
            n, nf = nvar("n", 4), 1 if one else nvar("nf", 2)
            t = rarr("t", n)
            x = carr("x", n) if two else rarr("x", n)
            win, freq = rarr("win", n), rarr("freq", nf, nonneg=True)

            def c_cross(it, t_, x_, fr):
                same(s, "cross: times", t_, t)
                same(s, "cross: windowed residual", x_, xw)
                same(s, "cross: angular frequencies", fr, SArr((nf,), lambda idx: 2 * T.PI * T.app("freq", T.lift(idx[0]), nonneg=True), "f"))
                return carr("X", nf, owner="result")

            it = Interp(contracts={"utide.periodogram._ls_cross": c_cross})
            f = x.snap()
            mean = A.dim(0) if False else T.sum_(n, lambda j: T.lift(f((A.dim(j),)))) / (Cx(T.lift(n), T.ZERO) if two else T.lift(n))
            uni = M[id(np.linspace)][1](it, M[id(np.min)][1](it, t), M[id(np.max)][1](it, t), n)
            w = A.as_sarr(M[id(np.interp)][1](it, t, uni, win))
            wf = w.snap()
            xw = A.ew(lambda a, b: (T.lift(a) - mean) * (Cx(T.lift(b), T.ZERO) if two else T.lift(b)), x, w)
            P = it.call(m_per._psd_lomb, (t, x), {"window": win, "freq": freq})
            s.used(it)
            k = gen(nf)
            fk = T.app("freq", k, nonneg=True)
            same(s, "frequencies of the estimates", P["F"], freq)
            s.true("spectra of the components present", set(P) == ({"F", "Pxx", "Pyy", "Pxy"} if two else {"F", "Pxx"}))
            dt = (T.app("t", T.lift(n) - 1) - T.app("t", T.ZERO)) / (T.lift(n) - 1)
            norm = 2 * dt * T.lift(n) / T.sum_(n, lambda j: T.lift(wf((A.dim(j),))) ** 2)
            ls = lambda y: T.app("lombscargle", A.arr_key(t), A.arr_key(y), 2 * T.PI * fk, nonneg=True)
            for q in sorted(set(P) - {"F"}):
                s.true(f"{q}: one estimate per frequency", A.as_sarr(P[q]).ndim == 1 and A.same_dim(A.as_sarr(P[q]).shape[0], nf))
            s.eq("Pxx: one-sided density of the windowed residual without its mean", A.as_sarr(P["Pxx"]).get(k), norm * ls(xw.real if two else xw))
            if two:
                s.eq("Pyy: likewise for the second component", A.as_sarr(P["Pyy"]).get(k), norm * ls(xw.imag))
                s.eq("Pxy: the cross term with the same norm", A.as_sarr(P["Pxy"]).get(k), Cx(norm, T.ZERO) * Cx(T.app("X_re", k), T.app("X_im", k)))
            s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def fuzz_lomb(v=None):
    rng = np.random.default_rng(6)
    for k in range(40):
        n, nf = int(rng.integers(4, 12)), int(rng.integers(1, 5))
        t = np.sort(rng.uniform(0, 30, n))
        x = rng.normal(size=n) + (1j * rng.normal(size=n) if k % 2 else 0)
        f = rng.uniform(0.05, 0.5, nf)
        P = m_per._psd_lomb(t, x, window=np.hanning(n), freq=f)
        for q in set(P) - {"F"}:
            if np.shape(P[q]) != (nf,):
                return f"_psd_lomb of {n} samples at {nf} frequencies: {q} has shape {np.shape(P[q])}"
    return ("no failing input", 40)


def cross_unit(s):
    with s.unit("_ls_cross"):
        def body():
            from .. import npmodel
            n, nf = nvar("n", 2), nvar("nf", 1)
            t, x, fr = rarr("t", n), carr("x", n), rarr("fr", nf, nonneg=True)
            it = Interp()
            P = A.as_sarr(it.call(m_per._ls_cross, (t, x, fr)))
            s.used(it)
            s.true("one estimate per frequency", A.same_dim(P.shape[0], nf))
            k = gen(nf)
            w = T.app("fr", k, nonneg=True)
            tt = lambda j: T.app("t", T.lift(j))
            S = lambda f: T.sum_(n, f)
            tau = npmodel._arctan2(S(lambda j: T.cis(2 * w * tt(j))[1]), S(lambda j: T.cis(2 * w * tt(j))[0])) / 2
            c, si = (lambda j: T.cis(w * tt(j) - tau)[0]), (lambda j: T.cis(w * tt(j) - tau)[1])
            xr, xi = (lambda j: T.app("x_re", T.lift(j))), (lambda j: T.app("x_im", T.lift(j)))
            q = lambda a, b: S(lambda j: a(j) * b(j))
            want = (q(xr, c) * q(xi, c) / q(c, c) + q(xr, si) * q(xi, si) / q(si, si)) / 2
            s.eq("co-spectrum: the Lomb-Scargle form with one component for each factor", Cx.of(T.lift(P.get(k))).re, want)
            s.true("nothing passed in is overwritten", not it.frame_violations)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def fuzz_freqs(v=None):
    rng = np.random.default_rng(5)
    for k in range(12):
        n = int(rng.choice([9, 400, 3001, 30000]))
        of = int(rng.integers(1, 4))
        t = np.sort(rng.uniform(0, n, n)) + rng.uniform(-1e3, 1e3)
        bands = TB[[int(rng.integers(9))]] if k % 2 else TB[[1, 2]]
        got = m_per._lomb_freqs(t.copy(), fbands=bands, ofac=of)
        reclen = n * (t[-1] - t[0]) / (n - 1)
        f = np.arange(1, n * of // 2) / reclen
        want = []
        for lo, hi in bands:
            b = f[np.sum(f < lo):min(len(f), np.sum(f < hi) + 1)]
            want.append(np.linspace(b[0], b[-1], 500) if len(b) > 500 else b)
        want = np.concatenate(want)
        if got.shape != want.shape or (len(got) and np.abs(got - want).max() > 1e-12):
            return f"_lomb_freqs: {n} times, oversampling {of}, bands {bands.tolist()}: {got.shape} lines, differs from the Fourier frequencies of the bands"
    return ("no failing input", 12)


def fuzz_noise(v=None):
    """constituents exactly on the edges of the bands"""
    frq = np.array(sorted({x for b in TB for x in b} | {0.0, 0.0805, 0.02, 0.6}))
    saved = m_conf.band_psd
    try:
        m_conf.band_psd = lambda *a, **k: Bunch(fbnd=TB, Puu=np.arange(1.0, 10), Pvv=np.arange(11.0, 20), Puv=np.arange(21.0, 30))
        for two in (False, True):
            t = np.arange(9.0)
            out = m_conf.band_averaged_psd_by_constit(t, t, t + 0j if two else t, 2.0, Bunch(aux=Bunch(frq=frq)), Bunch(equi=True, twodim=two, lsfrqosmp=1))
            for q, base in enumerate((1, 11, 21)[: 3 if two else 1]):
                want = np.array([sum((base + b) * (lo <= f <= hi) for b, (lo, hi) in enumerate(TB)) / 48 for f in frq])
                if np.abs(out[q] - want).max() > 1e-12:
                    return f"noise of the constituents at {frq.tolist()} is {out[q].tolist()}, want {want.tolist()}"
    finally:
        m_conf.band_psd = saved
    return ("no failing input", 2)


def freqs_unit(s):
    from .. import npmodel
    M = npmodel.MODELS
    for b in list(range(9)) + [(1, 2)]:
        bands = TB[[b]] if isinstance(b, int) else TB[list(b)]
        with s.unit(f"_lomb_freqs[band {b}]", replay=fuzz_freqs):
            def body():
                n, of = nvar("n", 4), nvar("ofac", 1)
                t = rarr("t", n)
                ENGINE.push(T.cmp_("lt", T.app("t", T.ZERO), T.app("t", T.lift(n) - 1)))
                ENGINE.push(T.cmp_("le", 2, T.floor_(T.lift(n) * of / 2)))       # follows from n >= 4, ofac >= 1
                it = Interp()
                out = A.as_sarr(it.call(m_per._lomb_freqs, (t,), {"fbands": bands, "ofac": of}))
                s.used(it)
                nn = T.lift(n)
                reclen = nn * (T.app("t", nn - 1) - T.app("t", T.ZERO)) / (nn - 1)
                m = T.lift(A.as_sarr(M[id(np.arange)][1](it, 1, T.floor_(nn * of / 2))).shape[0])      # frequencies between zero and Nyquist
                four = SArr((A.dim(m),), lambda idx: (1 + T.lift(idx[0])) / reclen, "f")
                off = T.ZERO
                for lo, hi in bands:
                    i0 = T.lift(M[id(np.searchsorted)][1](it, four, float(lo)))
                    i1 = T.min_(m, T.lift(M[id(np.searchsorted)][1](it, four, float(hi))) + 1)
                    ln = i1 - i0 if A.res(T.cmp_("lt", i1 - i0, 0)) is False else T.max_(i1 - i0, T.ZERO)
                    many = T.cmp_("lt", 500, i1 - i0)
                    if ENGINE.decide(many):
                        cnt = T.pconst(500)
                        val = lambda j: (1 + i0 + (i1 - 1 - i0) * T.lift(j) / 499) / reclen
                    else:
                        cnt = ln
                        val = lambda j: (1 + i0 + T.lift(j)) / reclen
                    j = T.fresh("j", "I", True)
                    with using([T.cmp_("lt", j, cnt)]):
                        s.eq("Fourier frequencies of the band, thinned evenly to 500", out.get(A.dim(off + j)), val(j))
                    off = off + cnt
                s.eq("nothing else", T.lift(out.shape[0]), off)
                s.true("nothing passed in is overwritten", not it.frame_violations)
                s.sanity()
            for facts, (kind, r) in s.paths(body):
                if kind == "exc":
                    s.true(f"no exception ({r})", False)


def lemma_unit(s):
    """consequences of the contract of _psd, proved about the code itself"""
    with s.unit("_psd: scaling, offset and order of the components"):
        def body():
            half = nvar("half", 2)
            n = A.dim(2 * half)
            w = rarr("w", n)
            a, b, fs = T.var("a"), T.var("b"), T.var("fs", nonneg=True)
            run = lambda e: A.as_sarr(Interp().call(m_per._psd, (e, w, fs)))
            k = gen(A.dim(half + 1))
            e = rarr("e", n)
            p = run(e).get(k)
            s.eq("scales with the square", run(A.ew(lambda z: T.lift(z) * a, e)).get(k), p * a ** 2)
            s.eq("unaffected by an offset", run(A.ew(lambda z: T.lift(z) + b, e)).get(k), p)
            z = carr("z", n)
            c = Cx.of(run(z).get(k))
            sw = Cx.of(run(A.ew(lambda q: Cx(Cx.of(q).im, Cx.of(q).re), z)).get(k))
            s.eq("co-spectrum symmetric in the components", sw.re, c.re)
            s.sanity()
        for facts, (kind, r) in s.paths(body):
            if kind == "exc":
                s.true(f"no exception ({r})", False)


def run(s):
    lemma_unit(s)
    for cplx in (False, True):
        band_unit(s, cplx)
    for equi in (True, False):
        for two in (False, True):
            for odd in (0, 1):
                band_psd_unit(s, equi, two, odd)
    for two in (False, True):
        for one in (False, True):
            lomb_unit(s, two, one)
    cross_unit(s)
    freqs_unit(s)
    for equi in (True, False):
        for two in (False, True):
            for gaps in (False, True) if equi else (False,):
                noise_unit(s, equi, two, gaps)
    for two in (False, True):
        psd_unit(s, two)
