SEEDS = {}

def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

seed("recon-reftime", "C01", "linear-time or raw phases (or linear-time nodal corrections) and reconstruction times whose middle is not the solution's reference time",
 "the reconstruction references linearised arguments to the middle of its own times",
 [("_reconstruct.py", '''    E = ut_E(
        t,
        coef["aux"]["reftime"],''', '''    tmid = 0.5 * (t[0] + t[-1]) if len(t) else coef["aux"]["reftime"]
    E = ut_E(
        t,
        tmid,''')],
 '''
t = grid()
c = solve(t, sea(t, 0), lat=30, constit=["M2", "S2", "K1", "O1"], phase="raw", nodal=False, conf_int="none", trend=False, **KW)
a = reconstruct(t, c, min_SNR=0, **KW).h
b = reconstruct(t[100:300], c, min_SNR=0, **KW).h
assert np.abs(a[100:300] - b).max() < 1e-8
''')
seed("trend-elor", "C02", "a trend and few samples (the error is one part in the number of samples)",
 "trend column normalised with the effective record length, slope converted with the plain one",
 [("_solve.py", "((t - tref) / lor)[:, np.newaxis]", "((t - tref) / elor)[:, np.newaxis]")],
 '''
t = grid(20, 1 / 12)
c = solve(t, 2 + 0.5 * (t - T0) + wave(t, 0.0805114007, 1, 1), lat=30, constit=["M2"], conf_int="none", nodal=False, phase="raw", **KW)
assert abs(c.slope - 0.5) < 1e-5, c.slope
''')
seed("cep-late-wrap", "C03", "an ellipse whose mean angle of the rotary components is negative",
 "phase computed from the orientation before it is wrapped: ellipse off by half a cycle",
 [("ellipse_params.py", '''    theta = ((epsp + epsm) / 2) % 180
    g = (-epsp + theta) % 360
''', '''    theta = (epsp + epsm) / 2
    g = (-epsp + theta) % 360
    theta = theta % 180
''')],
 '''
from utide.ellipse_params import ut_cs2cep
X = rng.standard_normal((4, 500))
L, l, th, g = ut_cs2cep(*X)
th, g = np.deg2rad(th), np.deg2rad(g)
assert np.allclose(L * np.cos(th) * np.cos(g) + l * np.sin(th) * np.sin(g), X[0])
assert np.allclose(L * np.sin(th) * np.cos(g) - l * np.cos(th) * np.sin(g), X[2])
''')
seed("cep-small", "C03", "a component whose amplitude is below 1e-6 in the data's units",
 "phase of small scalar constituents replaced by zero",
 [("ellipse_params.py", "g = -np.angle(ap, deg=True) % 360", "g = np.where(Lsmaj < 1e-6, 0, -np.angle(ap, deg=True) % 360)")],
 '''
from utide.ellipse_params import ut_cs2cep
A, _, _, g = ut_cs2cep(np.array([3e-7]), np.array([4e-7]))
assert abs(g[0] - np.rad2deg(np.arctan2(4, 3))) < 1e-6
''')
seed("astro-abs-cubic", "C04", "a time before 1899-12-31 12:00",
 "cubic term of the ephemeris has the wrong sign before the epoch",
 [("astronomy.py", "args = np.vstack((np.ones(jd.shape), d, D * D, D**3))", "args = np.vstack((np.ones(jd.shape), d, D * D, np.abs(D) * D * D))")],
 '''
from utide.astronomy import ut_astron
jd = 600000.25
a, _ = ut_astron(np.array([jd]))
d = jd - 693595.5; D = d / 1e4
s = (270.434164 + 13.1763965268 * d - 0.0000850 * D**2 + 0.000000039 * D**3) / 360
x = (a[1, 0] - s) % 1
assert min(x, 1 - x) < 1e-10, x
''')
seed("astro-rate-first", "C04", "an array of times (the rates of any but the first)",
 "the rates' quadratic term uses the first time of the array for all",
 [("astronomy.py", "(np.zeros(jd.shape), np.ones(jd.shape), 2.0e-4 * D, 3.0e-4 * D * D),", "(np.zeros(jd.shape), np.ones(jd.shape), np.full(jd.shape, 2.0e-4 * D[0]), 3.0e-4 * D * D),")],
 '''
from utide.astronomy import ut_astron
jd = np.array([700000.0, 760000.0])
_, d = ut_astron(jd)
_, e = ut_astron(jd[1:])
assert np.abs(d[:, 1] - e[:, 0]).max() < 1e-13
''')
seed("fuv-south", "C05", "a southern latitude and a constituent with satellites of the second latitude kind",
 "latitude factor of the second kind symmetric about the equator",
 [("harmonics.py", "rr[j] *= 2.59808 * slat", "rr[j] *= 2.59808 * abs(slat)")],
 '''
from utide.harmonics import FUV, sat
i = np.unique(sat.iconst[sat.ilatfac == 2] - 1)
n = FUV(np.array([T0]), T0, i, 40.0, [0, 0, 0, 0])
s = FUV(np.array([T0]), T0, i, -40.0, [0, 0, 0, 0])
zn = n[0] * np.exp(2j * np.pi * n[1]); zs = s[0] * np.exp(2j * np.pi * s[1])
assert np.abs(zn - zs).max() > 1e-4
''')
seed("fuv-lint-first", "C05", "linearised times for the nodal corrections with a reference time different from the first time",
 "linearised nodal corrections frozen at the first time instead of the reference time",
 [("harmonics.py", '''        if ngflgs[0]:
            tt = np.array([tref])''', '''        if ngflgs[0]:
            tt = t[:1]''')],
 '''
from utide.harmonics import FUV
i = np.array([20, 47])
a = FUV(np.array([T0]), T0 + 2000, i, 40.0, [1, 0, 0, 0])[0]
b = FUV(np.array([T0 + 2000]), T0 + 2000, i, 40.0, [1, 0, 0, 0])[0]
assert np.abs(a - b).max() < 1e-12
''')
seed("time-seconds", "C06", "times with fractions of a second", "dates truncated to whole seconds",
 [("_time_conversion.py", 'date = date.astype("datetime64[ms]")', 'date = date.astype("datetime64[s]")')],
 '''
from utide._time_conversion import _normalize_time
a = _normalize_time(np.array(["2001-02-03T04:05:06.750"], dtype="datetime64[ms]"))
b = _normalize_time(np.array(["2001-02-03T04:05:06.000"], dtype="datetime64[ms]"))
assert abs((a - b)[0] * 86400 - 0.75) < 1e-3
''')
seed("gap-v-only", "C07", "a vector series with missing values in v only", "samples missing only in v stay in the fit with v's fill value",
 [("_solve.py", "if np.ma.is_masked(uin) or np.ma.is_masked(vin):", "if np.ma.is_masked(uin):")],
 '''
t = grid(); u, v = cur(t)
v[50:60] = np.nan
c = solve(t, u, v, lat=30, constit=["M2", "S2", "K1"], conf_int="none", **KW)
assert abs(c.Lsmaj[c.name == "M2"][0] - 1) < 0.3, c.Lsmaj
''')
seed("ref-sorted", "C08", "two or more reference constituents not in table order", "table indices of the reference constituents sorted, other arrays not",
 [("constituent_selection.py", "coef.aux.lind.extend([_ref.lind for _ref in cnstit.R])", "coef.aux.lind.extend(sorted(_ref.lind for _ref in cnstit.R))")],
 '''
t = grid(60)
inf = dict(inferred_names=["K2", "P1"], reference_names=["S2", "K1"], amp_ratios=[0.3, 0.3], phase_offsets=[0.0, 0.0])
c = solve(t, sea(t), lat=30, constit=["M2", "S2", "K1", "O1"], infer=inf, conf_int="none", **KW)
from utide._ut_constants import constit_index_dict as d
assert [d[n] for n in c.name] == list(c.aux.lind)
''')
seed("rayleigh-strict", "C08", "a record length that resolves a constituent exactly", "constituents separated by exactly the Rayleigh resolution left out",
 [("constituent_selection.py", "np.where(const.df >= minres)", "np.where(const.df > minres)")],
 '''
from utide.constituent_selection import ut_cnstitsel
from utide._ut_constants import ut_constants
df = ut_constants.const.df
k = int(np.argmin(np.abs(df - 0.0015)))
c, _ = ut_cnstitsel(T0, df[k], "auto", None)
assert k in c.NR.lind
''')
seed("reorder-drop", "C09", "a vector series with confidence intervals whose requested order is not the solution order", "orientation intervals stay in the original order",
 [("_solve.py", "Lsmin Lsmin_ci theta theta_ci\"", "Lsmin Lsmin_ci theta thetaci\"")],
 '''
t = grid(); u, v = cur(t)
k = dict(lat=30, constit=["M2", "S2", "K1"], white=True, **KW)
a = solve(t, u, v, order_constit=["M2", "S2", "K1"], **k)
b = solve(t, u, v, order_constit=["K1", "M2", "S2"], **k)
assert np.allclose(b.theta_ci[[1, 2, 0]], a.theta_ci)
''')
seed("pe-major", "C10", "a vector series with non-rectilinear ellipses", "percent energy normalised with the major axes only",
 [("diagnostics.py", "PE = (100 / np.sum(E)) * E", "PE = (100 / np.sum(coef[\"Lsmaj\"] ** 2)) * E")],
 '''
t = grid(); u, v = cur(t)
c = solve(t, u, v, lat=30, constit=["M2", "S2", "K1"], **KW)
assert abs(c.PE.sum() - 100) < 1e-8
''')
seed("diagn-snr-sort", "C10", "constituents whose energy and signal-to-noise orders differ", "the diagnostics table lists the signal-to-noise ratios in their own order",
 [("diagnostics.py", 'coef["diagn"]["SNR"] = SNR[indPE]', 'coef["diagn"]["SNR"] = np.sort(SNR)[::-1]')],
 '''
from utide.diagnostics import ut_diagn
c = {"A": np.array([3.0, 2.0, 1.0]), "A_ci": np.array([1.0, 0.1, 0.5]), "name": np.array(["a", "b", "c"], dtype=object)}
c = ut_diagn(c)
assert c["diagn"]["SNR"][0] < c["diagn"]["SNR"][1]
''')
seed("recon-dup", "C11", "a list of constituents naming one of them twice", "a constituent named twice in the list is included twice",
 [("_reconstruct.py", 'ind = [i for i, c in enumerate(coef["name"]) if c in constit]', 'names = list(coef["name"])\n        ind = [names.index(c) for c in constit if c in names]')],
 '''
t = grid()
c = solve(t, sea(t), lat=30, constit=["M2", "S2", "K1"], conf_int="none", **KW)
a = reconstruct(t, c, constit=["M2"], **KW).h
b = reconstruct(t, c, constit=["M2", "M2"], **KW).h
assert np.abs(a - b).max() < 1e-9
''')
seed("recon-pe-subset", "C11", "an energy threshold together with constituents below the signal-to-noise threshold", "energy percentages relative to the significant constituents only",
 [("_reconstruct.py", "PE = 100 * E / E.sum()", "PE = 100 * E / E[SNR >= min_SNR].sum()")],
 '''
from utide.utilities import Bunch
t = grid()
c = solve(t, sea(t), lat=30, constit=["M2", "S2", "K1"], trend=False, **KW)
c.A_ci = np.where(c.name == "M2", 1e3, 1e-3)
e = c.A**2; pe = 100 * e / e.sum()
p = pe[c.name == "S2"][0] * 1.5
a = reconstruct(t, c, min_SNR=2, min_PE=p, **KW).h
assert np.abs(a - a[0]).max() < 1e-2
''')
seed("infer-rm-index", "C12", "a vector series with inference from two or more references", "clockwise ratio of later references taken from the first one's",
 [("constituent_selection.py", "                        infer.amp_ratios[ilk + nI]\n", "                        infer.amp_ratios[lk + nI]\n")],
 '''
from utide.constituent_selection import ut_cnstitsel
from utide.utilities import Bunch
inf = Bunch(inferred_names=["K2", "P1"], reference_names=["S2", "K1"], amp_ratios=[0.3, 0.3, 0.4, 0.2], phase_offsets=[0.0, 0.0, 0.0, 0.0], approximate=False)
c, _ = ut_cnstitsel(T0, 0.001, ["M2", "S2", "K1"], inf)
assert abs(c.R[1].I.Rm[0] - 0.2) < 1e-12
''')
seed("linci-minor", "C13", "a vector series with uncertain v cosine coefficient", "wrong sign in the derivative of the minor axis",
 [("confidence.py", '''        dXv2 = (0.25 * (hx + gx)) ** 2
        dYv2 = (0.25 * (ex + fx)) ** 2
        sig1 = sig1''', '''        dXv2 = (0.25 * (hx - gx)) ** 2
        dYv2 = (0.25 * (ex + fx)) ** 2
        sig1 = sig1''')],
 '''
from utide.confidence import ut_linci
from utide.ellipse_params import ut_cs2cep
X = np.array([1.0, 0.3, -0.5, 0.7]); h = 1e-6
f = lambda x: ut_cs2cep(*[np.array([y]) for y in x])[1][0]
d = (f(X + [0, 0, h, 0]) - f(X - [0, 0, h, 0])) / (2 * h)
s1, _ = ut_linci(X[0] + 1j * X[2], X[1] + 1j * X[3], 0 + 1j, 0 + 0j)
assert abs(s1.imag - abs(d)) < 1e-6
''')
seed("ci-pvv", "C13", "a vector series with coloured background whose components' noise levels differ", "v's noise level taken from u's spectrum",
 [("confidence.py", "            Pvv[inside] = ba.Pvv[i]", "            Pvv[inside] = ba.Puu[i]")],
 '''
t = grid(); u, v = cur(t)
v = v + 0.5 * rng.standard_normal(t.size)
k = dict(lat=30, constit=["M2", "S2", "K1"], order_constit=["M2", "S2", "K1"], **KW)
a = solve(t, u, v, **k)
b = solve(t, v, -u, **k)   # rotated by 90 degrees: same axes, same intervals
assert np.allclose(a.Lsmaj_ci, b.Lsmaj_ci, rtol=1e-6)
''')
seed("fair-sign", "C14", "the fair weight function with negative real residuals", "weights depend on the sign of the residual",
 [("robustfit.py", "w = 1 / (1 + np.abs(r))", "w = 1 / (1 + np.sqrt(np.abs(r * r)) * np.sign(r.real))")],
 '''
from utide.robustfit import fair
r = np.array([-0.5, 0.5])
w = fair(r)
assert abs(w[0] - w[1]) < 1e-12
''')
seed("robust-tune-zero", "C14", "an explicit tuning constant", "an explicitly given tuning constant multiplies instead of dividing",
 [("robustfit.py", "rfac = 1 / (tune * np.sqrt(1 - lev))", "rfac = 1 / (tune_defaults[weight_function] * np.sqrt(1 - lev)) * (tune / tune_defaults[weight_function])")],
 '''
from utide.robustfit import robustfit
x = np.arange(200.0)
X = np.c_[np.ones(200), x / 200]
y = 3 + x / 50 + 0.1 * rng.standard_normal(200); y[::20] += 5
a = robustfit(X, y, weight_function="huber", tune=0.8, maxit=2)
b = robustfit(X, y, weight_function="huber", tune=3.0, maxit=2)
assert a.w.sum() < b.w.sum()
''')
seed("lomb-window", "C15", "strongly uneven times", "Lomb-Scargle density normalised with the uniform taper instead of the one applied",
 [("periodogram.py", "psdnorm = 2 * delta_t * n / (w**2).sum()", "psdnorm = 2 * delta_t * n / ((w if window is None else window) ** 2).sum()")],
 '''
from utide.periodogram import _psd_lomb
from scipy import signal
n = 600
t = np.sort(np.r_[rng.random(500) * 100, 100 + rng.random(100) * 700])
x = rng.standard_normal(n); x -= x.mean()
win = signal.windows.hann(n, sym=False)
w = np.interp(t, np.linspace(t.min(), t.max(), n), win)
P = _psd_lomb(t, x, window=win, freq=np.array([0.05, 0.1]))
dt = (t[-1] - t[0]) / (n - 1)
want = 2 * dt * n / (w**2).sum() * signal.lombscargle(t, x * w, np.array([0.05, 0.1]) * 2 * np.pi)
assert np.allclose(P.Pxx, want, rtol=1e-6)
''')
seed("const-freq", "C17", "any call (the tables change silently; later users of the table see the frequencies of another date)", "the constant frequency table is overwritten",
 [("harmonics.py", "    freq = const.freq.copy()\n", "    freq = const.freq\n")],
 '''
from utide._ut_constants import ut_constants
before = ut_constants.const.freq.copy()
t = grid(20)
solve(t, sea(t), lat=30, constit=["M2"], conf_int="none", **KW)
assert np.array_equal(before, ut_constants.const.freq, equal_nan=True)
''')
seed("matlab-inplace", "C17", "floating-point times with epoch 'matlab'", "the caller's time array is shifted by 366 days",
 [("_time_conversion.py", "            return t - 366\n", "            if t.dtype.kind == \"f\":\n                t -= 366\n                return t\n            return t - 366\n")],
 '''
t = grid(20) + 366
t0 = t.copy()
solve(t, sea(t), lat=30, constit=["M2"], conf_int="none", epoch="matlab", verbose=False)
assert np.array_equal(t, t0)
''')
seed("opts-lenient", "C18", "an option name that does not exist together with ones that do", "an unknown option is ignored when it comes with known ones",
 [("utilities.py", "            bad = set(kw.keys()) - set(self.keys())\n            if bad:", "            bad = set(kw.keys()) - set(self.keys())\n            if bad == set(kw.keys()) and bad:")],
 '''
t = grid(20)
try:
    solve(t, sea(t), lat=30, constit=["M2"], conf_int="none", rayleigh_min=2, **KW)
except Exception:
    pass
else:
    raise SystemExit("accepted an unknown option")
''')
seed("infer-1d-2n", "C18", "a scalar series with 2N ratios", "ratios of vector length accepted for a scalar series",
 [("_solve.py", "if len(infer.amp_ratios) != nratios or len(infer.phase_offsets) != nratios:", "if len(infer.amp_ratios) not in (nI, 2 * nI) or len(infer.phase_offsets) != len(infer.amp_ratios):")],
 '''
t = grid(60)
inf = dict(inferred_names=["K2"], reference_names=["S2"], amp_ratios=[0.3, 0.2], phase_offsets=[0.0, 0.0])
try:
    solve(t, sea(t), lat=30, constit=["M2", "S2"], infer=inf, conf_int="none", **KW)
except Exception:
    pass
else:
    raise SystemExit("accepted lists of inconsistent length")
''')
seed("cov-floor", "C19", "data in units that make the variances small", "variance floor in absolute units",
 [("confidence.py", "    gamC = BWBinv * varMSM\n", "    gamC = BWBinv * max(varMSM, 1e-8)\n")],
 '''
t = grid(); h = sea(t)
k = dict(lat=30, constit=["M2", "S2", "K1"], white=True, order_constit=["M2", "S2", "K1"], **KW)
a = solve(t, h, **k); b = solve(t, h * 1e-4, **k)
assert np.allclose(a.A_ci * 1e-4, b.A_ci, rtol=1e-6)
''')

seed("mc-trace", "C16", "Monte-Carlo intervals of a vector series with coloured background", "v covariance block rescaled by u's trace",
 [("confidence.py", "Dvv = Pvv[c] * Dvv / np.trace(Dvv)", "Dvv = Pvv[c] * Dvv / (varXu + varYu)")],
 '''
got = []
real = np.random.multivariate_normal
def spy(mean, cov, n):
    got.append(np.array(cov)); return real(mean, cov, n)
np.random.multivariate_normal = spy
t = grid(); u, v = cur(t)
t2 = t[np.abs(t - t.mean()) > 3]; sel = np.isin(t, t2)
E = []
import utide.confidence as cf
b0 = cf.band_averaged_psd_by_constit
def psd(*a):
    r = b0(*a); E.append(r); return r
cf.band_averaged_psd_by_constit = psd
solve(t2, u[sel], v[sel] * 3, lat=30, constit=["M2", "S2", "K1"], conf_int="MC", order_constit="frequency", **KW)
for k, c in enumerate(got):
    assert abs(c[2, 2] + c[3, 3] - E[0][1][k]) < 1e-3 * E[0][1][k]
''')
seed("mc-g-unwrap", "C16", "Monte-Carlo intervals of scalar constituents with phase near 0", "phases clustered about half a turn from the fitted value",
 [("confidence.py", "    ofs = -x[0] + ha\n", "    ofs = -np.median(x) + ha\n")],
 '''
from utide.confidence import cluster
x = np.array([359.0, 1.0, 2.0, 358.0, 0.5, 3.0, 357.0])
y = cluster(x)
assert np.abs(y - x[0]).max() < 10, y
''')
seed("gap-equi", "C15", "equally spaced times with missing values", "spectrum of a gappy record computed as if it had no gaps",
 [("confidence.py", "        if len(tin) > len(t):\n            e_ = complex_interp(tin, t, e)\n        ba = band_psd(tin, e_, constits, equi=True)", "        if len(tin) > 1.2 * len(t):\n            e_ = complex_interp(tin, t, e)\n        ba = band_psd(tin, e_, constits, equi=True)")],
 '''
import utide.confidence as cf
seen = []
b0 = cf.band_psd
def spy(t, e, *a, **k):
    seen.append((len(t), len(e))); return b0(t, e, *a, **k)
cf.band_psd = spy
t = grid(); h = sea(t); h[300:340] = np.nan
solve(t, h, lat=30, constit=["M2", "S2", "K1"], **KW)
assert seen[0][0] == seen[0][1], seen
''')
seed("opt-minse", "C18", "a Rayleigh criterion below one", "Rayleigh criteria below one silently raised to one",
 [("_solve.py", "    oldopts.rmin = opts.Rayleigh_min\n", "    oldopts.rmin = max(opts.Rayleigh_min, 1)\n")],
 '''
t = grid(100)
a = solve(t, sea(t), lat=30, conf_int="none", Rayleigh_min=1, **KW)
b = solve(t, sea(t), lat=30, conf_int="none", Rayleigh_min=0.5, **KW)
assert len(b.name) > len(a.name)
''')
seed("block-recon", "C01", "reconstruction times of more than 2000 samples that do not fill whole blocks",
 "the reconstruction is computed in blocks and the last sample of a long series is left without its tide",
 [("_reconstruct.py", "    fit = np.dot(E, ap) + np.dot(np.conj(E), am)\n", """    nblock = 2000
    fit = np.zeros(len(t), dtype=complex)
    for i0 in range(0, len(t), nblock):
        blk = slice(i0, min(i0 + nblock, len(t) - 1) if i0 else i0 + nblock)
        fit[blk] = np.dot(E[blk], ap) + np.dot(np.conj(E[blk]), am)
""")],
 '''
t = grid(20)
c = solve(t, sea(t, 0), lat=30, constit=["M2", "S2", "K1", "O1"], conf_int="none", trend=False, **KW)
tt = T0 + np.arange(2601) / 96
a = reconstruct(tt, c, min_SNR=0, **KW).h
b = reconstruct(tt[-3:], c, min_SNR=0, **KW).h
assert np.abs(a[-3:] - b).max() < 1e-9
''')
seed("e-cache", "C17", "two long records with the same ends and length but different times inside",
 "basis functions cached by the ends of the time array",
 [("harmonics.py", "    E = F * np.exp(1j * (U + V) * 2 * np.pi)\n", """    E = F * np.exp(1j * (U + V) * 2 * np.pi)
    if nt > 500:
        key = (nt, nc, float(t[0]), float(t[-1]), float(np.ravel(lat)[0]), tuple(bool(x) for x in ngflgs), tuple(lind))
        E = _E_cache.setdefault(key, E)
"""), ("harmonics.py", "def ut_E(", "_E_cache = {}\n\n\ndef ut_E(")],
 '''
t1 = grid(40)
t2 = t1.copy(); t2[1:-1] += 0.02 * np.sin(np.arange(len(t1) - 2))
o = dict(lat=30, constit=["M2", "S2", "K1", "O1"], conf_int="none", trend=False, order_constit="frequency", **KW)
fresh = solve(t2 + 0, sea(t2, 0), **dict(o, lat=30.0))
import utide.harmonics as H
if hasattr(H, "_E_cache"):
    H._E_cache.clear()
solve(t1, sea(t1, 0), **o)
again = solve(t2, sea(t2, 0), **o)
assert np.abs(fresh.A - again.A).max() < 1e-9
''')
seed("astron-decade", "C17", "solutions of two records at different times of the same decade in one process",
 "frequencies remembered per decade: a solution depends on which record was analysed first",
 [("harmonics.py", "def linearized_freqs(tref):\n    astro, ader = ut_astron(tref)\n", """_ader_cache = {}


def linearized_freqs(tref):
    key = int(np.ravel(tref)[0] // 3652)
    if key not in _ader_cache:
        _ader_cache[key] = ut_astron(tref)[1]
    ader = _ader_cache[key]
""")],
 '''
from utide.harmonics import linearized_freqs
a = linearized_freqs(np.array([733000.0]))
b = linearized_freqs(np.array([731000.0]))
from utide.astronomy import ut_astron
from utide._ut_constants import ut_constants, constit_index_dict
k = constit_index_dict["M2"]
want = float(np.dot(ut_constants.const.doodson[k], ut_astron(np.array([731000.0]))[1]).squeeze()) / 24
assert abs(b[k] - want) < 1e-16, (b[k] - want)
''')
seed("recon-zero", "C11", "min_SNR=0 together with a positive min_PE", "the energy threshold is ignored when the SNR threshold is zero",
 [("_reconstruct.py", "elif (min_SNR == 0 and min_PE == 0) or", "elif min_SNR == 0 or")],
 '''
t = grid()
c = solve(t, sea(t, 0.02), lat=30, constit=["M2", "S2", "K1", "O1", "M4"], conf_int="linear", **KW)
thr = 0.5 * (np.sort(c.PE)[-1] + np.sort(c.PE)[-2])
a = reconstruct(t, c, min_SNR=0, min_PE=thr, **KW).h
b = reconstruct(t, c, constit=[c.name[np.argmax(c.PE)]], **KW).h
assert np.abs(a - b).max() < 1e-9
''')
seed("mask-order", "C07", "velocities whose v has missing values where u has none", "gaps of v alone are not removed",
 [("_solve.py", "            mask = np.ma.mask_or(np.ma.getmaskarray(vin), mask)\n", "            mask = np.ma.mask_or(np.ma.getmaskarray(vin), mask) if np.ma.is_masked(uin) else mask\n")],
 '''
t = grid(); u, v = sea(t, 0), sea(t[::-1], 0)
w = v.copy(); w[50:60] = np.nan
good = np.isfinite(w)
o = dict(lat=30, constit=["M2", "S2", "K1"], conf_int="none", order_constit="frequency", **KW)
a = solve(t, u, w, **o)
assert np.isfinite(a.Lsmaj).all() and abs(a.vmean) < 1e3
assert len(a.weights) == good.sum()
''')
seed("inf-neg", "C07", "negative infinity among the data", "only NaN and positive infinity are treated as missing",
 [("_solve.py", "    uin = np.ma.masked_invalid(uin)\n", "    uin = np.ma.masked_where(np.isnan(uin) | (uin == np.inf), uin)\n")],
 '''
t = grid(); h = sea(t, 0.1); g = h.copy(); g[5] = -np.inf; h[5] = np.nan
o = dict(lat=30, constit=["M2", "S2", "K1"], conf_int="none", order_constit="frequency", **KW)
assert np.allclose(solve(t, g, **o).A, solve(t, h, **o).A)
''')
seed("tref-gappy", "C02", "an equally spaced record with missing values at one end and a trend",
 "reference time taken from the times that are left although the record length comes from all of them",
 [("_solve.py", "        tref = 0.5 * (tin[0] + tin[-1])\n", "        tref = 0.5 * (t[0] + t[-1]) + 0.5 * (tin[-1] - t[-1]) * (len(t) < len(tin))\n")],
 '''
t = grid(30); h = sea(t, 0); h[:80] = np.nan
c = solve(t, h, lat=30, constit=["M2", "K1"], conf_int="none", **KW)
assert abs(c.aux.reftime - 0.5 * (t[0] + t[-1])) < 1e-9, c.aux.reftime
''')
seed("order-round", "C09", "two constituents whose SNR differ by less than 0.005", "order by SNR rounded to two decimals",
 [("_solve.py", '        ind = coef["SNR"].argsort()[::-1]\n', '        ind = np.round(coef["SNR"], 2).argsort()[::-1]\n')],
 '''
from utide._solve import _reorder
from utide.utilities import Bunch
snr = np.array([1.0, 3.0012, 3.0044, 3.0031, 2.9991, 0.5])
n = len(snr)
c = Bunch(name=np.array(list("abcdef"), dtype=object), SNR=snr.copy(), PE=snr.copy(), A=snr.copy(), g=snr.copy(),
          aux=Bunch(frq=np.arange(n) * 1.0, lind=np.arange(n)))
c = _reorder(c, Bunch(ordercnstit="SNR"))
assert (np.diff(c.SNR) <= 0).all(), c.SNR
''')
seed("infer-interleaved", "C12", "two constituents inferred from one reference, with one of another reference listed between them",
 "the relations of a reference are taken from consecutive entries of the specification",
 [("constituent_selection.py", """                    infer.amp_ratios[ilk]
                    * np.exp(1j * infer.phase_offsets[ilk] * np.pi / 180),""", """                    infer.amp_ratios[ind[0] + lk]
                    * np.exp(1j * infer.phase_offsets[ind[0] + lk] * np.pi / 180),""")],
 '''
t = grid(60); u = sea(t, 0)
inf = dict(inferred_names=["K2", "P1", "T2"], reference_names=["S2", "K1", "S2"], amp_ratios=[0.3, 0.25, 0.1], phase_offsets=[5, -10, 20])
c = solve(t, u, lat=30, constit=["M2", "S2", "K1", "O1"], infer=inf, conf_int="none", order_constit="frequency", **KW)
n = list(c.name)
assert abs(c.A[n.index("T2")] / c.A[n.index("S2")] - 0.1) < 1e-6
''')
seed("white-w", "C13", "robust fits with a white-noise error model", "degrees of freedom counted from the square roots of the weights",
 [("confidence.py", "    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)\n", "    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (np.sqrt(W).sum() - nm)\n")],
 '''
import utide.confidence as cf
from utide.utilities import Bunch
nt = 60; tt = np.arange(nt) / 24
E = np.exp(2j * np.pi * 1.9 * tt)[:, None]
B = np.hstack((E, E.conj(), np.ones((nt, 1))))
y = np.real(B @ np.array([1 + 1j, 1 - 1j, 0.3])) + rng.standard_normal(nt)
W = rng.uniform(0.2, 1, nt)
m = np.linalg.lstsq(W[:, None] * B, W * y, rcond=None)[0]
x = np.real(B @ m)
ap, am = m[:1], m[1:2]
Xu, Yu = np.real(ap + am), -np.imag(ap - am)
coef = Bunch(g=np.rad2deg(np.arctan2(Yu, Xu)), nNR=1, nR=0, nI=0)
opt = Bunch(white=True, twodim=False, linci=True, infer=None)
c = cf._confidence(coef, None, opt, tt, None, tt, 1.0, y, x, W, m, B, Xu, Yu, [], [])
BWB = np.linalg.inv(B.conj().T @ (W[:, None] ** 2 * B))
s2 = np.sum(W**2 * (y - x) ** 2) / (nt - 3)
C = BWB * s2
J = np.array([[1, 1, 0], [1j, -1j, 0]])
V = np.real(J @ C @ J.conj().T)
sX, sY = np.sqrt(V[0, 0]), np.sqrt(V[1, 1])
A = np.hypot(Xu[0], Yu[0])
want = 1.96 * np.sqrt((Xu[0] * sX) ** 2 + (Yu[0] * sY) ** 2) / A
assert abs(c.A_ci[0] / want - 1) < 1e-6, (c.A_ci[0], want)
''')
seed("rob-oldw", "C14", "a robust fit whose fourth iteration is worse than its third", "the weights returned are not those of the fit that is returned",
 [("robustfit.py", "                w = oldw\n", "                w = oldw if i != 3 else w\n")],
 '''
from utide.robustfit import robustfit
hit = 0
for k in range(400):
    n = 12
    X = np.column_stack([np.ones(n), rng.standard_normal(n)])
    y = X @ [1.0, 2.0] + rng.standard_normal(n) ** 3
    rf = robustfit(X, y, weight_function="talwar")
    b = np.linalg.lstsq(rf.w[:, None] * X, rf.w * y, rcond=1e-12)[0]
    hit += 1
    assert np.allclose(b, rf.b, atol=1e-8), (k, b, rf.b)
''')
seed("band-edge", "C15", "a constituent whose frequency is exactly the edge of a band", "band edges excluded: no noise level for the constituent",
 [("confidence.py", "(constits >= lo) & (constits <= hi)", "(constits > lo) & (constits < hi)")],
 '''
import utide.confidence as cf
from utide.utilities import Bunch
from utide.periodogram import freq_bands
t = grid(60); e = rng.standard_normal(len(t))
coef = Bunch(aux=Bunch(frq=np.array([freq_bands[2, 0], 0.08, freq_bands[1, 1]])))
P, _, _ = cf.band_averaged_psd_by_constit(t, t, e, 60.0, coef, Bunch(equi=True, twodim=False, lsfrqosmp=1))
assert (P > 0).all(), P
''')
seed("spd-asym", "C16", "a matrix that is not symmetric", "only the lower triangle is used instead of the symmetric part",
 [("confidence.py", "    B = (A + A.T) / 2\n\n", "    B = np.tril(A) + np.tril(A, -1).T\n\n")],
 '''
from utide.confidence import nearestSPD
A = np.diag([2.0, 3.0]) + np.array([[0, 0.4], [0.1, 0]])
S = nearestSPD(A)
assert abs(S[0, 1] - 0.25) < 1e-8, S
''')
seed("lat-raw", "C18", "no latitude together with raw phases and no nodal corrections", "a missing latitude is accepted when nothing seems to need it",
 [("_solve.py", '    if lat is None:\n', '    if lat is None and not (opts.get("gwchnone") and opts.get("nodsatnone")):\n')],
 '''
t = grid()
try:
    solve(t, sea(t), lat=None, constit=["M2"], phase="raw", nodal=False, conf_int="none", **KW)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
seed("trend-skip", "C19", "data in large units, so that the trend over the record is below 1e-6 of them", "tiny trends are replaced by zero: the solution does not scale with the data",
 [("_solve.py", '            coef["slope"] = np.real(m[-1]) / lor\n', '            coef["slope"] = np.real(m[-1]) / lor if abs(m[-1]) > 1e-6 else 0.0\n')],
 '''
t = grid(); h = sea(t, 0.1) + 0.002 * (t - T0)
o = dict(lat=30, constit=["M2", "K1"], conf_int="none", **KW)
a = solve(t, h, **o).slope; b = solve(t, h * 1e-6, **o).slope
assert abs(b / a * 1e6 - 1) < 1e-6, (a, b)
''')
seed("scale-abs", "C19", "data in large units, so that the residuals are small numbers", "residuals below 1e-4 are taken for zero: intervals do not scale with the data",
 [("confidence.py", "    if not opt[\"white\"]:\n        Puu, Pvv, Puv = band", "    e = np.where(np.abs(e) < 1e-4, 0, e)\n    if not opt[\"white\"]:\n        Puu, Pvv, Puv = band")],
 '''
t = grid(); h = sea(t, 0.1)
o = dict(lat=30, constit=["M2", "K1", "S2"], conf_int="linear", **KW)
a = solve(t, h, **o); b = solve(t, h * 1e-3, **o)
assert np.allclose(b.A_ci * 1e3, a.A_ci, rtol=1e-3), (a.A_ci, b.A_ci)
''')
seed("whole-day-epoch", "C06", "whole-number times counted from an epoch that is not at midnight", "the hours of the epoch are dropped for integer day numbers",
 [("_time_conversion.py", '                return t + ofs\n', '                # whole days stay whole\n                return t + (int(ofs) if t.dtype.kind == "i" else ofs)\n')],
 '''
from utide._time_conversion import _normalize_time
d = np.arange(5)
a = _normalize_time(d, "2000-01-01T12:00"); b = _normalize_time(d.astype(float), "2000-01-01T12:00")
assert np.array_equal(a, b), (a, b)
''')
seed("mask-second", "C07", "a mask on v only, with a finite number stored under it", "the mask of the second component is ignored unless the first component has missing samples",
 [("_solve.py", '            mask = np.ma.mask_or(np.ma.getmaskarray(vin), mask)\n', '            vm = np.ma.getmaskarray(vin) if mask.any() else ~np.isfinite(vin.data)\n            mask = vm | mask\n')],
 '''
t = grid(); u, v = cur(t)
m = np.zeros(t.size, bool); m[100:110] = True
w = v.copy(); w[m] = 50.0
o = dict(lat=30, constit=["M2", "K1"], conf_int="none", **KW)
a = solve(t, u, np.ma.array(w, mask=m), **o); b = solve(t, u, np.where(m, np.nan, v), **o)
assert np.allclose(a.Lsmaj, b.Lsmaj), (a.Lsmaj, b.Lsmaj)
''')
