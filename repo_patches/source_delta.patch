From 17821a37da8827d65602ab38965a52d814d29999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 01/22] fix: nodal corrections exactly on the equator

With lat == 0, np.sign(lat) * 5 is 0, so the diurnal latitude factor was
divided by zero and solve failed with LinAlgError.
---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..7738c01 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = -5 if lat < 0 else 5
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From b2a6da8759d56bffb0d55b699b5d2324f16d8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 02/22] fix: honour the mask of masked time arrays

The mask was dropped on conversion, so masked times were treated as valid by
solve and reconstruct.
---
 utide/_time_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..5b0ca2e 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -20,7 +20,7 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
 
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
-    date = np.asarray(date)
+    date = np.asanyarray(date)  # Keep the mask, if any.
 
     try:
         date = date.astype("datetime64[ms]")
@@ -61,7 +61,7 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
-    t = np.asarray(t)
+    t = np.asanyarray(t)  # Keep the mask, if any.
 
     if epoch is None:
         # default datetime, datetime64, or datetime array
-- 
2.43.0


From 74053a75db73d10bfb748b1603749a73c01889d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 03/22] fix: convert NaT to nan, not to a number

NaT was converted to about -1.07e11 days and then treated as a valid time.
---
 utide/_time_conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 5b0ca2e..cb8e43c 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -37,7 +37,8 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
+    # (Dividing by a timedelta64 turns NaT into nan.)
+    datenum = (date - epoch) / np.timedelta64(1, "ms") / _MS_PER_DAY
     return datenum
 
 
-- 
2.43.0


From e3c61d1e615d3e463411e32fe8c402fbf3e2ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/22] fix: andrews, huber and logistic weights for arrays

The builtin max fails on arrays; the logistic lower bound was 1, instead of
sqrt(eps), which made the weight constant for |r| < 1.
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From 36d195d3f887e7da257cef495479996fbc731bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 05/22] fix: robustfit with a 1-D model array

The name x is not defined.
---
 utide/robustfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..a9260b7 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -172,7 +172,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
-- 
2.43.0


From 5ba885a98c5360f6bb8423436be973cba01628fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 06/22] fix: weights and residuals returned by robustfit are
 those of the fit

When maxit was reached the weights had been updated after the last fit, and
upon convergence rms_resid was for the fit before the one returned.
---
 utide/robustfit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a9260b7..8485b0f 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -235,6 +235,9 @@ def robustfit(
         oldrsumsq = rsumsq
         oldrmeansq = rmeansq
 
+        if i == maxit - 1:
+            break  # Did not converge; w are the weights for this fit.
+
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
 
@@ -244,6 +247,8 @@ def robustfit(
     if iterations == 0:
         iterations = maxit  # Did not converge.
 
+    # Residuals (unweighted) from the fit being returned:
+    resid = y - np.dot(X, b)
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From 37d499c999f34c64d5d48e51b6f422c83fdb3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 07/22] fix: validation of the infer option

A plain dict, as documented, failed; an incomplete one failed with a TypeError
from the error message or was not detected; and the caller's object was
modified.
---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..07897e3 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -89,9 +89,9 @@ def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    infer = Bunch(infer)  # Allow a dict; don't modify the argument.
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From c2f30ae34ad99f8af29f08edc0cc55b07b1c2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 08/22] fix: accept any array_like input in solve

Lists are documented as valid, but failed with an AttributeError.
---
 utide/_solve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 07897e3..8eb9b5b 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -466,6 +466,11 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From eb527c105a6a1d1eb7c35888cd4b38b89be528de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 09/22] fix: accept an array of constituent names

The comparison of an array with 'auto' failed.
---
 utide/constituent_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..3331318 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0


From 7d42fceb080314b31fd4d86e89c4b0b7619e00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 10/22] fix: colored-noise scaling of u variances in the 2-D
 linearized CI

Only the v variances were scaled to the residual spectrum, so the confidence
intervals changed when u and v were exchanged.
---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From 7e3d3afa6e31bd76ba70b9d9557eba255d1a21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 11/22] fix: use each constituent's own covariances when
 inferring

With inference the model columns are ordered NR, conj(NR), R, conj(R), so the
conjugate of column c is not column c + nc.
---
 utide/confidence.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..28b3ba5 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -206,6 +206,11 @@ def _confidence(
     Hall = gamC - gamP
 
     nc = len(Xu)
+    # Columns of B with the positive and negative frequency parts of each
+    # constituent: NR, conj(NR), R, conj(R), ...
+    icol = np.arange(nc)
+    cp = np.where(icol < coef.nNR, icol, icol + coef.nNR)
+    cm = cp + np.where(icol < coef.nNR, coef.nNR, coef.nR)
     coef.g_ci = np.nan * np.ones_like(coef.g)
     if opt["twodim"]:
         coef.Lsmaj_ci = coef.g_ci.copy()
@@ -221,10 +226,16 @@ def _confidence(
 
     for c in range(nc):
         G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
+            [
+                [Gall[cp[c], cp[c]], Gall[cp[c], cm[c]]],
+                [Gall[cm[c], cp[c]], Gall[cm[c], cm[c]]],
+            ],
         )
         H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
+            [
+                [Hall[cp[c], cp[c]], Hall[cp[c], cm[c]]],
+                [Hall[cm[c], cp[c]], Hall[cm[c], cm[c]]],
+            ],
         )
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
-- 
2.43.0


From 1a5e191902f0158724b5b587eb9832d7040d67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 12/22] fix: minor axis and orientation uncertainty when Xv is
 exactly zero

A complex X with zero imaginary part was taken for the one-dimensional case.
---
 utide/confidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 28b3ba5..83cca45 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -479,7 +479,7 @@ def ut_linci(X, Y, sigX, sigY):
     )
 
     # if ~isreal(X)
-    if not np.isreal(X):
+    if np.iscomplexobj(X):
         # Minor axis.
         dXu2 = (0.25 * (ex - fx)) ** 2
         dYu2 = (0.25 * (gx - hx)) ** 2
-- 
2.43.0


From e2c59659c40abbfd80c62fdc67b14444a8656eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 13/22] fix: reject undocumented values of method, phase and
 nodal

They silently selected robust fitting, Greenwich phase and full nodal
corrections.
---
 utide/_solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 8eb9b5b..fb7f8a9 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -36,6 +36,12 @@ def _process_opts(opts, is_2D):
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
     newopts.infer = validate_infer(newopts.infer, is_2D)
+    if newopts.method not in ("ols", "robust"):
+        raise ValueError("'method' must be 'ols' or 'robust'")
+    if newopts.phase not in ("Greenwich", "linear_time", "raw"):
+        raise ValueError("'phase' must be 'Greenwich', 'linear_time', or 'raw'")
+    if newopts.nodal not in (True, False, "linear_time"):
+        raise ValueError("'nodal' must be True, False, or 'linear_time'")
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
 
-- 
2.43.0


From dc8cf465aa83b7886d55c421d85eeae0713d2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 14/22] fix: inference with no other constituents left

---
 utide/constituent_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 3331318..c72330e 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -53,6 +53,8 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
         RI_index_set = {constit_index_dict[n] for n in RIset}
         cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
 
+    # There may be none left, and an empty list is not a valid index array.
+    cnstit.NR.lind = np.array(cnstit.NR.lind, dtype=int)
     cnstit.NR.frq = freqs[cnstit.NR.lind]
     cnstit.NR.name = const.name[cnstit.NR.lind]
     nNR = len(cnstit.NR.frq)
-- 
2.43.0


From 5db967cdfc620934bf63efeb4db08143b2ea8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 15/22] fix: accept an array of names as order_constit

---
 utide/_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index fb7f8a9..4361bd9 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -118,7 +118,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return arg  # TODO: add checking of its elements
+        return list(arg)  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
-- 
2.43.0


From b260c9d8c1c0181da44472eb33c9e5c0976ef67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 16/22] fix: robustfit when the weighted model is
 rank-deficient

---
 utide/robustfit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8485b0f..8afc3ed 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -204,8 +204,9 @@ def robustfit(
     for i in range(maxit):
         wX = w[:, np.newaxis] * X
         wy = w * y
-        b, rsumsq, rank, sing = np.linalg.lstsq(wX, wy, rcond)
-        rsumsq = rsumsq[0]
+        b, _, rank, sing = np.linalg.lstsq(wX, wy, rcond)
+        # lstsq returns no sum of squares if wX is rank-deficient.
+        rsumsq = np.sum(np.abs(wy - np.dot(wX, b)) ** 2)
         if i == 0:
             rms_resid = np.sqrt(rsumsq / n)
             out.update({"ols_b": b, "ols_rms_resid": rms_resid})
-- 
2.43.0


From fb36cd85dcba5cbb49c11669c5b599d3642253e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 17/22] fix: robustfit with residuals that are exactly zero

---
 utide/robustfit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8afc3ed..c8f63a9 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -242,6 +242,12 @@ def robustfit(
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
 
+        if sigma_hat(resid) == 0:
+            # At least half of the data are fitted exactly, so the residuals
+            # cannot be normalized.
+            iterations = i + 1
+            break
+
         # Update weights based on these residuals.
         w = _wfunc(r_normed(resid, rfac))
 
-- 
2.43.0


From 8ac27bc0009ba3c3eb820b666939f7b5e3ee9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 18/22] fix: Monte-Carlo orientation and phase intervals of
 ellipses near 0 or 180 degrees

---
 utide/confidence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 83cca45..ea59776 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -356,12 +356,14 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                g[0] = coef.g[c]
+                # Adding 180 degrees to both theta and g gives the same ellipse.
+                turns = cluster(theta, 180) - theta
+                theta = theta + turns
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-                g[0] = coef.g[c]
-                g = cluster(g, 360)
+                g = cluster(g + turns, 360)
                 coef.g_ci[c] = (
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                 )  # noqa
-- 
2.43.0


From 917d57105cd7e73e87a64482526c97859a08fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 19/22] fix: variances with inference of vector series

---
 utide/confidence.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index ea59776..7863f0d 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -193,11 +193,14 @@ def _confidence(
     varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
-    gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
-
-    # Gamma_P: pseudo-covariance Eq. 54.
-    gamP = np.linalg.inv(np.dot(B.T, _WB))
-    gamP *= (np.dot(xraw, _Wx) - np.dot(xmod, _Wx)) / (nt - nm)
+    BWBinv = np.linalg.inv(np.dot(B.conj().T, _WB))
+    gamC = BWBinv * varMSM
+
+    # Gamma_P: pseudo-covariance Eq. 54, in a form that is also valid if the
+    # columns of B are not complex conjugate pairs (2-D inference).
+    gamP = np.dot(np.dot(BWBinv, np.dot(B.conj().T, _WB.conj())), BWBinv.conj())
+    resid = xraw - xmod
+    gamP *= np.dot(resid, W * resid) / (nt - nm)
 
     del _Wx, _WB
 
-- 
2.43.0


From d5366292832451c7c32ede442563777d0d981ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 20/22] fix: weights in the confidence intervals of a robust
 fit

---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 7863f0d..b5a8258 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -178,6 +178,9 @@ def _confidence(
     if not opt["white"]:
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
+    # The fit multiplies the equations by W, so W**2 weights the squared residuals.
+    W = W**2
+
     # Make temporaries for quantities needed more than once.
     _Wx = W * xraw
     _WB = W[:, np.newaxis] * B
-- 
2.43.0


From 0759dd21400c98b674ff3e8161790e8c4070dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 21/22] fix: reject an order_constit list that omits or repeats
 constituents

A list that left out or repeated names silently dropped or duplicated
constituents in every per-constituent output.
---
 utide/_solve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 4361bd9..7bcd98e 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -454,6 +454,11 @@ def _reorder(coef, opt):
         ind = coef["SNR"].argsort()[::-1]
     else:
         namelist = list(coef["name"])
+        if sorted(opt["ordercnstit"]) != sorted(namelist):
+            raise ValueError(
+                "order_constit must name every constituent of the solution once;"
+                f" the solution has {namelist}, not {opt['ordercnstit']}",
+            )
         ilist = [namelist.index(name) for name in opt["ordercnstit"]]
         ind = np.array(ilist, dtype=int)
 
-- 
2.43.0


From c28c379332d7959a6b7ec176d297a79a01069e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 22/22] fix: noise spectrum of an irregular record with a
 single spectral line in the bands raised

---
 utide/periodogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/periodogram.py b/utide/periodogram.py
index 099e101..77772c1 100644
--- a/utide/periodogram.py
+++ b/utide/periodogram.py
@@ -170,7 +170,8 @@ def _psd_lomb(t, x, window=None, freq=None, ofac=1):
     # array arguments.
     def _lombscargle(*args):
         newargs = [np.ascontiguousarray(a, dtype=np.float64) for a in args]
-        return signal.lombscargle(*newargs)
+        # recent versions squeeze the result for a single frequency
+        return np.atleast_1d(signal.lombscargle(*newargs))
 
     out = Bunch()
 
-- 
2.43.0

