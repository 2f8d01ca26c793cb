"""Executable specification: harmonic model, tables, fit, intervals and spectra, written from the method's
definition (Codiga 2011; Pawlowicz et al. 2002) and independent of /repo's code.  Real-valued throughout."""
import json
import os

import numpy as np

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "tables.json")))


def tab(g, k):
    e = _T[g][k]
    if e["kind"] == "O":
        return list(e["data"])
    a = np.array([np.nan if x is None else x for x in e["data"]], dtype=float).reshape(e["shape"])
    return a


NAMES = tab("const", "name")
INDEX = {n: i for i, n in enumerate(NAMES)}
NC = len(NAMES)
DOOD = tab("const", "doodson")
SEMI = tab("const", "semi")
DF = tab("const", "df")
FREQ = tab("const", "freq")
ISHALLOW = tab("const", "ishallow")
NSHALLOW = tab("const", "nshallow")
S_ICONST = tab("sat", "iconst").astype(int) - 1
S_DEL = tab("sat", "deldood")
S_PH = tab("sat", "phcorr")
S_AMP = tab("sat", "amprat")
S_LAT = tab("sat", "ilatfac").astype(int)
SH_NAME = tab("shallow", "iname").astype(int) - 1
SH_COEF = tab("shallow", "coef")
IS_SHALLOW = np.isfinite(ISHALLOW)
PARENTS = {k: [(int(SH_NAME[j]), float(SH_COEF[j]))
               for j in range(int(ISHALLOW[k]) - 1, int(ISHALLOW[k]) - 1 + int(NSHALLOW[k]))]
           for k in range(NC) if IS_SHALLOW[k]}
FRACTIONAL = {k for k, ps in PARENTS.items() if any(c != int(c) for _, c in ps)}   # M7

COEFS = {  # degrees; polynomials in d, (d/1e4)^2, (d/1e4)^3
    "s": (270.434164, 13.1763965268, -0.0000850, 0.000000039),
    "h": (279.696678, 0.9856473354, 0.00002267, 0.0),
    "p": (334.329556, 0.1114040803, -0.0007739, -0.00000026),
    "np": (-259.183275, 0.0529539222, -0.0001557, -0.000000050),
    "pp": (281.220844, 0.0000470684, 0.0000339, 0.000000070),
}
EPOCH_1899 = 693595.5


def astro(t):
    """(6, n) cycles (unreduced except the day fraction) and rates (cycles/day)."""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    d = t - EPOCH_1899
    D = d / 1e4
    lon, rate = [], []
    for k in ("s", "h", "p", "np", "pp"):
        a, b, c, e = COEFS[k]
        lon.append((a + b * d + c * D**2 + e * D**3) / 360)
        rate.append((b + 2 * c * D / 1e4 + 3 * e * D**2 / 1e4) / 360)
    tau = np.mod(t, 1) + lon[1] - lon[0]
    dtau = 1 + rate[1] - rate[0]
    return np.array([tau] + lon), np.array([dtau] + rate)


def lin_freqs(tref):
    """cycles per hour of all constituents at tref"""
    _, r = astro(tref)
    f = np.full(NC, np.nan)
    ok = ~IS_SHALLOW
    f[ok] = DOOD[ok] @ r[:, 0] / 24
    for k, ps in PARENTS.items():
        f[k] = sum(c * f[j] for j, c in ps)
    return f


def V_exact(t):
    a, _ = astro(t)
    V = np.full((NC, a.shape[1]), np.nan)
    ok = ~IS_SHALLOW
    # reduce each variable first: the combination is integer
    V[ok] = DOOD[ok] @ np.fmod(a, 1) + SEMI[ok][:, None]
    full = DOOD[ok] @ a + SEMI[ok][:, None]
    W = np.full_like(V, np.nan)
    W[ok] = full
    for k, ps in PARENTS.items():
        src = W if k in FRACTIONAL else V
        V[k] = sum(c * src[j] for j, c in ps)
    return V


def FU(t, lat):
    t = np.atleast_1d(np.asarray(t, dtype=float))
    a, _ = astro(t)
    if abs(lat) < 5:
        lat = -5.0 if lat < 0 else 5.0
    sl = np.sin(np.radians(lat))
    r = S_AMP.copy()
    r = np.where(S_LAT == 1, r * 0.36309 * (1 - 5 * sl**2) / sl, r)
    r = np.where(S_LAT == 2, r * 2.59808 * sl, r)
    z = np.ones((NC, len(t)), dtype=complex)
    ph = S_DEL @ a[3:6] + S_PH[:, None]
    c = r[:, None] * np.exp(2j * np.pi * np.mod(ph, 1))
    for j, k in enumerate(S_ICONST):
        z[k] += c[j]
    F, U = np.abs(z), np.angle(z) / (2 * np.pi)
    for k, ps in PARENTS.items():
        F[k] = np.prod([F[j] ** abs(cc) for j, cc in ps], axis=0)
        U[k] = sum(cc * U[j] for j, cc in ps)
    return F, U


def FUV(t, tref, lind, lat, nodal, phase):
    """(nt, nc) arrays; nodal in True/False/'linear_time', phase in 'Greenwich'/'linear_time'/'raw'"""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    lind = np.asarray(lind, dtype=int)
    n = len(t)
    if isinstance(nodal, str):
        F, U = FU([tref], lat)
        F, U = np.repeat(F, n, 1), np.repeat(U, n, 1)
    elif not nodal:
        F, U = np.ones((NC, n)), np.zeros((NC, n))
    else:
        F, U = FU(t, lat)
    if phase == "Greenwich":
        V = V_exact(t)
    else:
        V = 24 * lin_freqs(tref)[:, None] * (t - tref)[None, :]
        if phase == "linear_time":
            V = V + V_exact([tref])
    return F[lind].T, U[lind].T, V[lind].T


def basis(t, tref, lind, lat, nodal=True, phase="Greenwich"):
    F, U, V = FUV(t, tref, lind, lat, nodal, phase)
    return F * np.exp(2j * np.pi * (U + V))


def ellipse(Xu, Yu, Xv=None, Yv=None):
    if Xv is None:
        return np.hypot(Xu, Yu), np.mod(np.degrees(np.arctan2(Yu, Xu)), 360)
    ap = ((Xu + Yv) + 1j * (Xv - Yu)) / 2
    am = ((Xu - Yv) + 1j * (Xv + Yu)) / 2
    L, l = np.abs(ap) + np.abs(am), np.abs(ap) - np.abs(am)
    th = np.mod(np.degrees(np.angle(ap) + np.angle(am)) / 2, 180)
    g = np.mod(th - np.degrees(np.angle(ap)), 360)
    return L, l, th, g


def from_ellipse(L, l, th, g):
    th, g = np.radians(th), np.radians(g)
    ct, st, cg, sg = np.cos(th), np.sin(th), np.cos(g), np.sin(g)
    return (L * ct * cg + l * st * sg, L * ct * sg - l * st * cg,
            L * st * cg - l * ct * sg, L * st * sg + l * ct * cg)


class Prep:
    """Valid samples and record-level quantities."""

    def __init__(self, t, u, v=None):
        t = np.asarray(t, dtype=float)
        ok_t = np.isfinite(t)
        self.tin = t[ok_t]
        u = np.asarray(u, dtype=float)[ok_t]
        ok = np.isfinite(u)
        if v is not None:
            v = np.asarray(v, dtype=float)[ok_t]
            ok &= np.isfinite(v)
        self.ok = ok
        self.t, self.u = self.tin[ok], u[ok]
        self.v = None if v is None else v[ok]
        d = np.unique(np.diff(self.tin))
        self.equi = bool(np.var(d) < np.finfo(float).eps)
        b = self.tin if self.equi else self.t
        self.lor = float(np.ptp(b))
        self.elor = self.lor * len(b) / (len(b) - 1)
        self.tref = 0.5 * (b[0] + b[-1])


class Fit:
    """Real-valued least squares: columns Re(E), Im(E) per (effective) constituent, 1, (t-tref)/lor."""

    def __init__(self, prep, lind, lat, nodal=True, phase="Greenwich", trend=True, infer=None, weights=None):
        """infer: list of (ref_index, [(inferred_index, Rp, Rm)]) ; for 2-D the +/- parts are fitted separately"""
        self.prep, self.lind = prep, list(lind)
        self.lat, self.nodal, self.phase, self.trend = lat, nodal, phase, trend
        self.infer = infer or []
        self.nr = len(lind)
        A = self.columns(prep.t)
        self.cond = None
        w = np.ones(len(prep.t)) if weights is None else np.asarray(weights)
        self.w = w
        x = prep.u if prep.v is None else prep.u + 1j * prep.v
        self.x = x
        sc = np.linalg.norm(A, axis=0)
        self.cond = np.linalg.cond(A / sc)
        sol = np.linalg.lstsq(A * w[:, None] / sc, x * w, rcond=None)[0] / sc
        self.A, self.m, self.scale = A, sol, sc
        self.fitted = A @ sol
        if prep.v is None:
            self.fitted = self.fitted.real
        self.resid = x - self.fitted

    def columns(self, t):
        p = self.prep
        t = np.asarray(t, dtype=float)
        two = p.v is not None
        E = basis(t, p.tref, self.lind, self.lat, self.nodal, self.phase)
        if two:
            cols = [E, E.conj()]
        else:
            cols = [E.real, E.imag]
        for ref, infs in self.infer:
            Er = basis(t, p.tref, [ref], self.lat, self.nodal, self.phase)[:, 0]
            ep, em = Er.astype(complex), Er.conj()
            for ii, Rp, Rm in infs:
                Ei = basis(t, p.tref, [ii], self.lat, self.nodal, self.phase)[:, 0]
                ep = ep + Rp * Ei
                em = em + Rm * Ei.conj()
            if two:
                cols += [ep[:, None], em[:, None]]
            else:
                cols += [ep.real[:, None], ep.imag[:, None]]
        cols.append(np.ones((len(t), 1)))
        if self.trend:
            cols.append(((t - p.tref) / p.lor)[:, None])
        return np.hstack(cols)

    def predict(self, t):
        r = self.columns(t) @ self.m
        return r if self.prep.v is not None else r.real

    # complex amplitudes (ap, am) of directly estimated constituents: NR then R
    def ap_am(self):
        nNR, nR = len(self.lind), len(self.infer)
        m = self.m
        pos = list(range(nNR)) + [2 * nNR + 2 * k for k in range(nR)]
        neg = list(range(nNR, 2 * nNR)) + [2 * nNR + 2 * k + 1 for k in range(nR)]
        a, b = m[pos], m[neg]
        if self.prep.v is not None:
            return a, b
        ap = (a - 1j * b) / 2     # a, b are cosine / sine coefficients
        return ap, ap.conj()

    def all_ap_am(self):
        """NR, R, then inferred grouped by reference"""
        ap, am = self.ap_am()
        nNR = len(self.lind)
        P, M = list(ap), list(am)
        for k, (_, infs) in enumerate(self.infer):
            for _, Rp, Rm in infs:
                P.append(Rp * ap[nNR + k])
                M.append(Rm * am[nNR + k])
        return np.array(P), np.array(M)

    def order(self):
        return self.lind + [r for r, _ in self.infer] + [i for _, infs in self.infer for i, _, _ in infs]

    def XY(self):
        ap, am = self.all_ap_am()
        Xu, Yu = (ap + am).real, -(ap - am).imag
        if self.prep.v is None:
            return Xu, Yu, None, None
        return Xu, Yu, (ap + am).imag, (ap - am).real

    def params(self):
        Xu, Yu, Xv, Yv = self.XY()
        return ellipse(Xu, Yu, Xv, Yv)

    def mean_slope(self):
        m = self.m
        mean = m[-2] if self.trend else m[-1]
        slope = m[-1] / self.prep.lor if self.trend else None
        return mean, slope

    # white-noise (co)variances of the cosine/sine coefficients of every constituent (NR, R, then inferred), from the
    # sandwich formula for the estimator actually applied, with the weighted residual variance
    def variances(self):
        p = self.prep
        n, nm = self.A.shape
        As = self.A / self.scale * self.w[:, None]
        Q = np.linalg.inv(As.conj().T @ As)
        Q2 = Q @ (As.conj().T @ As.conj()) @ Q.conj()
        sc = np.outer(self.scale, self.scale)
        r = self.resid
        s2 = float(np.sum(self.w**2 * np.abs(r) ** 2)) / (n - nm)
        nNR, nR = len(self.lind), len(self.infer)
        out = {}
        if p.v is None:
            C = Q / sc * s2
            nc = nNR + nR
            ia = list(range(nNR)) + [2 * nNR + 2 * k for k in range(nR)]
            ib = list(range(nNR, 2 * nNR)) + [2 * nNR + 2 * k + 1 for k in range(nR)]
            L = np.zeros((2, nm))
            covs = []
            for k in range(nc):
                L = np.zeros((2, nm))
                L[0, ia[k]] = L[1, ib[k]] = 1
                covs.append(L)
            for k, (_, infs) in enumerate(self.infer):
                a, b = ia[nNR + k], ib[nNR + k]
                for _, Rp, Rm in infs:        # a_I - i b_I = Rp (a - i b)
                    L = np.zeros((2, nm))
                    L[0, a], L[0, b] = Rp.real, Rp.imag
                    L[1, a], L[1, b] = -Rp.imag, Rp.real
                    covs.append(L)
            V = np.array([L @ C @ L.T for L in covs])
            out["Xu"], out["Yu"], out["XYu"] = V[:, 0, 0], V[:, 1, 1], V[:, 0, 1]
            out["cov"] = V
            return out
        rho = np.sum(self.w**2 * r**2) / (n - nm)
        C, P = Q / sc * s2, Q2 / sc * rho
        pos = list(range(nNR)) + [2 * nNR + 2 * k for k in range(nR)]
        neg = list(range(nNR, 2 * nNR)) + [2 * nNR + 2 * k + 1 for k in range(nR)]
        rows = [(pos[k], neg[k], 1, 1) for k in range(nNR + nR)]
        for k, (_, infs) in enumerate(self.infer):
            rows += [(pos[nNR + k], neg[nNR + k], Rp, Rm) for _, Rp, Rm in infs]
        covs = []
        T = np.array([[1, 1, 0, 0], [0, 0, -1, 1], [0, 0, 1, 1], [1, -1, 0, 0]])     # Xu, Yu, Xv, Yv from Re ap, Re am, Im ap, Im am
        for a, b, ca, cb in rows:
            D = np.array([ca, cb])
            c = D[:, None] * C[np.ix_([a, b], [a, b])] * D.conj()
            q = D[:, None] * P[np.ix_([a, b], [a, b])] * D
            R = np.empty((4, 4))
            R[:2, :2] = (c + q).real / 2
            R[2:, 2:] = (c - q).real / 2
            R[:2, 2:] = (q.imag - c.imag) / 2
            R[2:, :2] = R[:2, 2:].T
            covs.append(T @ R @ T.T)
        V = np.array(covs)
        out = {"Xu": V[:, 0, 0], "Yu": V[:, 1, 1], "Xv": V[:, 2, 2], "Yv": V[:, 3, 3], "XYu": V[:, 0, 1], "XYv": V[:, 2, 3],
               "XuXv": V[:, 0, 2], "XuYv": V[:, 0, 3], "YuXv": V[:, 1, 2], "YuYv": V[:, 1, 3], "cov": V}
        return out


def linear_ci(X, V):
    """First-order propagation by a numerically differentiated parameter map (complex-step free, central
    differences in extended precision are not needed: analytic gradients of the defining formulas)."""
    if len(X) == 2:
        Xu, Yu = X
        A2 = Xu**2 + Yu**2
        sA = np.sqrt((Xu**2 * V[0] + Yu**2 * V[1]) / A2)
        sg = np.sqrt((Yu**2 * V[0] + Xu**2 * V[1])) / A2
        return 1.96 * sA, 1.96 * np.degrees(sg)
    Xu, Yu, Xv, Yv = X
    p = ((Xu + Yv) / 2, (Xv - Yu) / 2)
    m = ((Xu - Yv) / 2, (Xv + Yu) / 2)
    P2, M2 = p[0]**2 + p[1]**2, m[0]**2 + m[1]**2
    P, M = np.sqrt(P2), np.sqrt(M2)
    # d(p)/dX rows Xu, Yu, Xv, Yv
    dp = [(0.5, 0), (0, -0.5), (0, 0.5), (0.5, 0)]
    dm = [(0.5, 0), (0, 0.5), (0, 0.5), (-0.5, 0)]
    gL = gl = gg = gt = 0
    for k in range(4):
        dP = (p[0] * dp[k][0] + p[1] * dp[k][1]) / P
        dM = (m[0] * dm[k][0] + m[1] * dm[k][1]) / M
        dep = (p[0] * dp[k][1] - p[1] * dp[k][0]) / P2
        dem = (m[0] * dm[k][1] - m[1] * dm[k][0]) / M2
        gL = gL + (dP + dM)**2 * V[k]
        gl = gl + (dP - dM)**2 * V[k]
        gt = gt + ((dep + dem) / 2)**2 * V[k]
        gg = gg + ((dem - dep) / 2)**2 * V[k]
    return tuple(1.96 * s for s in (np.sqrt(gL), np.sqrt(gl), np.degrees(np.sqrt(gt)), np.degrees(np.sqrt(gg))))


BANDS = [(0.00010, 0.00417), (0.03192, 0.04859), (0.07218, 0.08884), (0.11243, 0.12910), (0.15269, 0.16936),
         (0.19295, 0.20961), (0.23320, 0.25100), (0.26000, 0.29000), (0.30000, 0.50000)]


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def psd_fft(t, x, y=None):
    """one-sided PSD (or real co-spectrum) of an even-length equally spaced series; t in days, freq in cph"""
    n = len(x)
    dt = 24 * (t[1] - t[0])
    w = hann(n)
    X = np.fft.fft((x - x.mean()) * w)[: n // 2 + 1]
    Y = X if y is None else np.fft.fft((y - y.mean()) * w)[: n // 2 + 1]
    S = (X.conj() * Y).real * dt / (w @ w)
    S[1:-1] *= 2
    return np.arange(n // 2 + 1) / (n * dt), S


def lomb_freqs(t):
    n = len(t)
    th = t * 24
    reclen = n * (th[-1] - th[0]) / (n - 1)
    f = np.arange(1, n // 2) / reclen
    out = []
    for lo, hi in BANDS:
        i0, i1 = np.searchsorted(f, [lo, hi])
        i1 = min(len(f), i1 + 1)
        if i1 - i0 > 500:
            out.append(np.linspace(f[i0], f[i1 - 1], 500))
        else:
            out.append(f[i0:i1])
    return np.hstack(out)


def psd_lomb(t, x, y=None):
    n = len(t)
    th = t * 24
    tu = np.linspace(th.min(), th.max(), n)
    w = np.interp(th, tu, hann(n))
    f = lomb_freqs(t)
    delta = (th[-1] - th[0]) / (n - 1)
    norm = 2 * delta * n / (w @ w)
    xs = (x - x.mean()) * w
    ys = xs if y is None else (y - y.mean()) * w
    S = np.empty(len(f))
    for k, fk in enumerate(f):
        om = 2 * np.pi * fk
        tau = np.arctan2(np.sin(2 * om * th).sum(), np.cos(2 * om * th).sum()) / 2
        c, s = np.cos(om * th - tau), np.sin(om * th - tau)
        S[k] = 0.5 * ((xs @ c) * (ys @ c) / (c @ c) + (xs @ s) * (ys @ s) / (s @ s))
    return f, norm * S


def band_means(f, S, cfreq):
    n = len(f)
    drop = np.zeros(n, bool)
    ix = np.clip(np.round(np.interp(cfreq, f, np.arange(n))).astype(int), 0, n - 1)
    drop[ix] = True
    out = []
    for lo, hi in BANDS:
        i0, i1 = np.searchsorted(f, [lo, hi])
        i1 = min(n, i1 + 1)
        sel = ~drop[i0:i1]
        out.append(S[i0:i1][sel].mean() if sel.any() else np.nan)
    return np.array(out)


def noise_power(prep, e, cfreq, comp="u"):
    """power of the residual at each constituent frequency"""
    if prep.equi:
        t = prep.tin
        if len(prep.tin) > len(prep.t):
            e = np.interp(t, prep.t, e.real) + 1j * np.interp(t, prep.t, e.imag)
    else:
        t = prep.t
    if len(e) % 2:
        t, e = t[:-1], e[:-1]
    fn = psd_fft if prep.equi else psd_lomb
    x = e.real if comp in ("u", "uv") else e.imag
    f, S = fn(t, x, e.imag if comp == "uv" else None)
    b = band_means(f, S, cfreq) / (prep.elor * 24)
    out = np.zeros(len(cfreq))
    for (lo, hi), val in zip(BANDS, b):
        out[(cfreq >= lo) & (cfreq <= hi)] = val
    return out
