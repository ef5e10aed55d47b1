From 1f3f6baa85a982e14201daa95dd527362e481818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 01/23] fix: late_index_bimod keeps the alpha parameters
 distinct from the beta ones

get_bounded_late_index_params and get_unbounded_late_index_params overwrote
the alpha (early) variables with the beta (late) ones, so every conversion
silently replaced late_index_*_alpha by late_index_*_beta.
---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From a09c0b731014fb7c12ecd7d846f8fd1625a4a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 02/23] fix: load_flat_hdf5 keeps every column of a nested
 dataset

With dataset='a/b', the output key was always 'b', so all the columns
collided and only the last one read was returned.
---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 9b5b10b7b3722a254c7ff07d618b15e6249b3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 03/23] fix: get_1d_arrays returns ndarrays without losing
 64-bit precision

With jax_arrays=False the inputs were still cast by jnp.atleast_1d, which
wraps 64-bit integers and rounds 64-bit floats under default JAX settings.
---
 diffmah/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..40d4dea 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -12,7 +12,8 @@ def get_1d_arrays(*args, jax_arrays=False):
     Each arg must be either an ndarray of shape (npts, ), or a scalar.
 
     """
-    results = [jnp.atleast_1d(arg) for arg in args]
+    xp = jnp if jax_arrays else np
+    results = [xp.atleast_1d(arg) for arg in args]
     sizes = [arr.size for arr in results]
     npts = max(sizes)
     msg = "All input arguments should be either a float or ndarray of shape ({0}, )"
-- 
2.43.0


From 345a05e99da2644716fd963ec4dbbb4288e88a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 04/23] fix: trimmed_mean discards the same points as
 scipy.stats.mstats

Comparing strictly against interpolated percentiles discarded the extremes
even for p_trim=0, and returned NaN for data with repeated values. Trim
int(n*p_trim) points off of each tail instead, as scipy does.
---
 diffmah/utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 40d4dea..98f6a8d 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -139,6 +139,15 @@ def get_cholesky_from_params(params):
     return cholesky
 
 
+@jjit
+def _get_trimmed_weights(x, p_trim):
+    """Weights are 0 for the int(n*p_trim) points on either tail and 1 otherwise"""
+    n_cut = jnp.floor(p_trim * x.size)
+    ranks = jnp.argsort(jnp.argsort(x))
+    xmsk = (ranks >= n_cut) & (ranks < x.size - n_cut)
+    return jnp.where(xmsk, 1.0, 0.0)
+
+
 @jjit
 def trimmed_mean(x, p_trim):
     """Mean of x after excluding points outside p_trim percentile
@@ -156,10 +165,7 @@ def trimmed_mean(x, p_trim):
     mu : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
-    _weights = jnp.where(xmsk, 1.0, 0.0)
+    _weights = _get_trimmed_weights(x, p_trim)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
     return trimmed_mean
@@ -184,10 +190,7 @@ def trimmed_mean_and_variance(x, p_trim):
     var : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
-    _weights = jnp.where(xmsk, 1.0, 0.0)
+    _weights = _get_trimmed_weights(x, p_trim)
     weights = _weights / _weights.sum()
 
     trimmed_mean = jnp.sum(x * weights)
-- 
2.43.0


From c70896f51eb9b0470976a07f5406eb48259adb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 05/23] fix: jax_adam_wrapper reports success when the fit
 stops at tol

fit_terminates is documented to be 0 only if NaN or inf is encountered, but
a fit that ended early because its loss reached tol was also flagged 0.
---
 diffmah/fitting_helpers/fit_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..debe880 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -98,7 +98,8 @@ def jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
+    tol_reached = fit_results[1] <= tol
+    if len(fit_results[2]) < n_step and not tol_reached:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 65a2c053c639ceb08f461fe3f2a632de61c1c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 06/23] fix: diffmah_fitter excludes points with mass below
 lgm_min

Masses below the cut were clipped to slightly above it, so for small
lgm_min they passed the log_mah_sim > lgm_min selection and were fit as if
they were real data.
---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..7dba924 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -239,8 +239,8 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
-    clip = EPSILON + 10**lgm_min
-    clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    log_clip = lgm_min if np.isfinite(lgm_min) else np.log10(EPSILON)
+    clipped_log_mah = np.where(msk, log_clip, np.log10(np.where(msk, 1.0, mah)))
     return clipped_log_mah
 
 
-- 
2.43.0


From 5a1f65ee02b015efc7053901c87a3530c727b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 07/23] fix: CDF of t_peak for centrals reaches unity at t_0

The Jacobian 1/t_0 applies to the PDF, not to the CDF.
---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From a6311941cad7d97340d7e311362d75c7af6524e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 08/23] fix: DiffmahPop predicts logm0 within the diffmah
 bounds

For massive halos observed at early times, logm0 exceeded the upper bound of
17, so the unbounded parameters and the generated MAHs were all NaN. Clip
logm0 as is already done for logtc, early_index and late_index.
---
 .../bimod_logm0_kernels/logm0_pop_early.py                 | 7 ++++++-
 .../bimod_logm0_kernels/logm0_pop_late.py                  | 7 ++++++-
 .../diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py | 7 ++++++-
 .../diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py  | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
index e4f85cf..5f56206 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_early.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
index b449ce5..d8322e9 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_late.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
index e4f85cf..5f56206 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_early.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
index b449ce5..d8322e9 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_late.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
-- 
2.43.0


From 65ba5d6b6af85c4ec83a086a0b635994538b108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 09/23] fix: load_diffmahpop_targets counts the samples stored
 in drn

The number of samples was always read from the hard-coded TASSO_DRN rather
than from the directory passed by the caller.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..36bcebd 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
-- 
2.43.0


From 83fbf6110ef6392a5e9e4f2712ffc2415f134779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 10/23] fix: load_diffmahpop_targets passes t_peak among the
 diffmah parameters

t_peak is a field of DiffmahParams and mah_halopop takes three arguments, so
computing the MAHs of the samples always raised.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 36bcebd..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From d8d3f41d48caea6663c9cefdc3eb39fb51e35082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 11/23] fix: scatter of early-type halos is drawn independently
 of t_peak

---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 1 +
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..46490c3 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -199,6 +199,7 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
+    tpc_key, ran_key = jran.split(ran_key, 2)  # tpc_key was used for t_peak
     early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..e0633cd 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -199,6 +199,7 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
+    tpc_key, ran_key = jran.split(ran_key, 2)  # tpc_key was used for t_peak
     early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
-- 
2.43.0


From b93cc2fc56624e94aca703a8da35fe31448d4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 12/23] fix: hacc_discovery fitting script imports the module
 with the fitting helpers

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..c0db73d 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From 6852679c97766991180b1ae7bc73b579c80bbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 13/23] fix: fitting scripts collate ranks with fewer than two
 halos

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py      | 4 +++-
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py   | 3 ++-
 .../hacc_discovery_sims_diffmah_fitter_script.py              | 3 ++-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py | 3 ++-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py          | 3 ++-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..f55a4d8 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -115,7 +115,9 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            # genfromtxt returns a 1d array for a rank with a single halo or none
+            ncols = len(cfh.HEADER_HALO_ID[1:].split())
+            collector.append(fit_data.reshape((-1, ncols)))
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..387d185 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -120,7 +120,8 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            # genfromtxt returns a 1d array for a rank with a single halo or none
+            collector.append(fit_data.reshape((-1, len(cfh.FIT_COLNAMES))))
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c0db73d..cf7e80c 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -132,7 +132,8 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
-                    collector.append(fit_data)
+                    # genfromtxt returns a 1d array for a rank with a single halo or none
+                    collector.append(fit_data.reshape((-1, len(cfh.FIT_COLNAMES))))
                 chunk_fit_results = np.concatenate(collector)
 
                 fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..f8c7a2f 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -130,7 +130,8 @@ if __name__ == "__main__":
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
-                    collector.append(fit_data)
+                    # genfromtxt returns a 1d array for a rank with a single halo or none
+                    collector.append(fit_data.reshape((-1, len(cfh.FIT_COLNAMES))))
                 chunk_fit_results = np.concatenate(collector)
 
                 fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..c4c817e 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -96,7 +96,8 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            # genfromtxt returns a 1d array for a rank with a single halo or none
+            collector.append(fit_data.reshape((-1, len(cfh.FIT_COLNAMES))))
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
-- 
2.43.0


From c06841e42ee55df0f7c1da8dd6ef5fe683ea32c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 14/23] fix: Last Journey fitting script includes the last
 subvolume by default

---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index f8c7a2f..8ed79e0 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend",
+        help="Last subvolume in loop",
+        type=int,
+        default=NUM_SUBVOLS_LASTJOURNEY,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 213479ae56ff3c09c65a622af4238a1684dad1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 15/23] fix: load_bpl_um_data can be imported without dsps

---
 diffmah/data_loaders/load_bpl_um_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/load_bpl_um_data.py b/diffmah/data_loaders/load_bpl_um_data.py
index 021a9b1..3231a5f 100644
--- a/diffmah/data_loaders/load_bpl_um_data.py
+++ b/diffmah/data_loaders/load_bpl_um_data.py
@@ -21,7 +21,8 @@ except ImportError:
 
 BPL_0M0 = 0.307
 BPL_h = 0.678
-BPL_COSMO = DEFAULT_COSMOLOGY._replace(Om0=BPL_0M0, h=BPL_h, w0=-1.0, wa=0.0)
+if HAS_DSPS:
+    BPL_COSMO = DEFAULT_COSMOLOGY._replace(Om0=BPL_0M0, h=BPL_h, w0=-1.0, wa=0.0)
 
 BPL_MAH_FIT_LGMIN = 10.0
 BPL_T_FIT_MIN = 1.0
-- 
2.43.0


From 1913f0bf59a7b7743015f6b1396223c04adb3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 16/23] fix: fit_global_c0_model and fit_global_c1_model run

The optimizers pass the parameters as an array, but the loss looked them up by
name, so every fit raised AttributeError.
---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..ab9c909 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -61,6 +61,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..f97597d 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -61,6 +61,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..577647a 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..557f859 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..d5762c4 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -64,6 +64,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..e563812 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -64,6 +64,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C0_Params(*params)
     t_obs, t_peak, target_c0 = loss_data
     pred_c0 = _pred_c0_kern(params, t_obs, t_peak)
     return _mse(target_c0, pred_c0)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..ca1e3dd 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..b8cfe23 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -72,6 +72,7 @@ def _mse(x, y):
 
 @jjit
 def _loss_kern_scalar(params, loss_data):
+    params = LGM0Pop_C1_Params(*params)
     t_obs, t_peak, target_c1 = loss_data
     pred_c1 = _pred_c1_kern(params, t_obs, t_peak)
     return _mse(target_c1, pred_c1)
-- 
2.43.0


From 9fb924ff498c213a12415f75fa404dde50fac0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 17/23] fix: Galacticus fitting script runs with more ranks
 than halos

---
 .../fitting_scripts/galacticus_diffmah_fitter_script.py   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 387d185..cbbaae8 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,10 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    # ranks beyond the number of halos have nothing to fit
+    istart, iend = 0, 0
+    if len(indx_for_rank) > 0:
+        istart, iend = indx_for_rank[0], indx_for_rank[-1] + 1
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +75,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = max((t[-1] for t in times_for_rank), default=0.0)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
-- 
2.43.0


From 9cb405a9fd8c0591fbbfcb25d39f4154736d8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 18/23] fix: test run of Bolshoi-Planck fitting script accepts
 a small catalog

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index f55a4d8..0f64220 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -65,7 +65,7 @@ if __name__ == "__main__":
 
     # Get data for rank
     if args.test:
-        nhalos_tot = nranks * 5
+        nhalos_tot = min(nranks * 5, len(halo_ids))
     else:
         nhalos_tot = len(halo_ids)
     _a = np.arange(0, nhalos_tot).astype("i8")
-- 
2.43.0


From 642ab3b125eccfbd56ad6dd0f8a94663f99a3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 19/23] fix: tabulation of DiffmahPop targets uses t_peak as a
 diffmah parameter

---
 .../smdpl_diffmahpop_utils.py                 | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..e464b6b 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -40,9 +40,9 @@ TASSO_OUTDRN = ""
 N_HALOS_MAX = 20_000
 N_HALOS_PER_SUBVOL = N_HALOS_MAX // N_SUBVOL_SMDPL
 FMT_OUT = "%.4f"
-HEADER_OUT = " ".join(DEFAULT_MAH_PARAMS._fields) + " t_peak"
+HEADER_OUT = " ".join(DEFAULT_MAH_PARAMS._fields)
 
-NUM_DIFFMAH_PARAMS = len(DEFAULT_MAH_PARAMS) + 1  # t_peak currently not a param
+NUM_DIFFMAH_PARAMS = len(DEFAULT_MAH_PARAMS)
 
 
 @jjit
@@ -105,15 +105,13 @@ def smdpl_diffmahpop_subvolume_loop(
             # Output data for centrals
             if n_cens > 0:
                 pcens = [x[msk_cens][:N_HALOS_PER_SUBVOL] for x in mah_params_sample]
-                tpcens = t_peak_sample[msk_cens][:N_HALOS_PER_SUBVOL]
-                data_cens = np.array([*pcens, tpcens]).T
+                data_cens = np.array(pcens).T
                 np.savetxt(fnout_cens, data_cens, fmt=FMT_OUT, header=HEADER_OUT)
 
             # Output data for satellites
             if n_sats > 0:
                 psats = [x[msk_sats][:N_HALOS_PER_SUBVOL] for x in mah_params_sample]
-                tpsats = t_peak_sample[msk_sats][:N_HALOS_PER_SUBVOL]
-                data_sats = np.array([*psats, tpsats]).T
+                data_sats = np.array(psats).T
                 np.savetxt(fnout_sats, data_sats, fmt=FMT_OUT, header=HEADER_OUT)
 
     collate_subvolume_samples(outdrn, T0_SMDPL, n_m, n_t, istart, iend)
@@ -193,7 +191,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -296,10 +294,10 @@ def tabulate_target_means_vars(
         if nh > nh_min:
             t_peak = diffmah_data[:, 4]
             mah_params = DEFAULT_MAH_PARAMS._make(
-                [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
+                [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -325,10 +323,10 @@ def tabulate_target_means_vars(
         if nh > nh_min:
             t_peak = diffmah_data[:, 4]
             mah_params = DEFAULT_MAH_PARAMS._make(
-                [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
+                [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From 7346c4aa54754c9d3663ef114025ebb90b67c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 20/23] fix: quote directories in the clean-up commands of the
 fitting scripts

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py       | 3 ++-
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py    | 3 ++-
 .../hacc_discovery_sims_diffmah_fitter_script.py               | 3 ++-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py  | 3 ++-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py           | 3 ++-
 scripts/fitting_scripts/unchunk_last_journey_script.py         | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 0f64220..cfd8eb8 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -4,6 +4,7 @@ Input MAH data for BPl is stored in the umachine_pyio format.
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -128,6 +129,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index cbbaae8..f641601 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -134,6 +135,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index cf7e80c..8bc48f4 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from glob import glob
 from time import time
@@ -145,6 +146,6 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
+                fnpat = os.path.join(shlex.quote(outdir), bnpat)
                 command = "rm " + fnpat
                 subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 8ed79e0..3ad5565 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -148,7 +149,7 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
+                fnpat = os.path.join(shlex.quote(outdir), bnpat)
                 command = "rm " + fnpat
                 subprocess.os.system(command)
             comm.Barrier()
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index c4c817e..6f625bf 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -2,6 +2,7 @@
 
 import argparse
 import os
+import shlex
 import subprocess
 from glob import glob
 from time import time
@@ -109,6 +110,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
+        fnpat = os.path.join(shlex.quote(outdir), bnpat)
         command = "rm " + fnpat
         subprocess.os.system(command)
diff --git a/scripts/fitting_scripts/unchunk_last_journey_script.py b/scripts/fitting_scripts/unchunk_last_journey_script.py
index 974b726..089fc4b 100644
--- a/scripts/fitting_scripts/unchunk_last_journey_script.py
+++ b/scripts/fitting_scripts/unchunk_last_journey_script.py
@@ -3,6 +3,7 @@
 import argparse
 import gc
 import os
+import shlex
 import subprocess
 from time import time
 
@@ -98,5 +99,5 @@ if __name__ == "__main__":
 
     print("...deleting chunked files\n")
     for fname in fname_to_delete_list:
-        command = f"rm {fname}"
+        command = f"rm {shlex.quote(fname)}"
         raw_result = subprocess.check_output(command, shell=True)
-- 
2.43.0


From b65eba8085419ffeb54cd02f79b50fca14bafb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 21/23] fix: tabulation of DiffmahPop targets deletes only its
 own temporary samples

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index e464b6b..a3cabdc 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -260,7 +260,7 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 np.save(fnout, satdata)
 
     for subvol in range(10):
-        fname_pat = os.path.join(drn, f"subvol_{subvol}*")
+        fname_pat = os.path.join(drn, f"subvol_{subvol}*_mah_params.*.txt")
         fname_list = glob(fname_pat)
         if len(fname_list) > 0:
             command = "rm " + fname_pat
-- 
2.43.0


From 21d7b2eb4db44b9eb37d11456373511fc799f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:58 +0000
Subject: [PATCH 22/23] fix: tabulation of DiffmahPop targets works in
 directories with special characters

---
 .../smdpl_diffmahpop_utils.py                  | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index a3cabdc..06636fd 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -6,8 +6,7 @@ of diffmah fits to SMDPL and stores halo samples binned by (lgm_obs, t_obs).
 NH_CUT = 100
 
 import os
-import subprocess
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -225,7 +224,7 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
 
             # centrals
             bnpat_cens = _get_subvol_bnpat("*", lgm_obs, t_obs, "cens")
-            fnlist_cens = glob(os.path.join(drn, bnpat_cens))
+            fnlist_cens = glob(os.path.join(escape(drn), bnpat_cens))
             bnlist_cens = [os.path.basename(fn) for fn in fnlist_cens]
 
             cendata_collector = []
@@ -243,7 +242,7 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
 
             # satellites
             bnpat_sats = _get_subvol_bnpat("*", lgm_obs, t_obs, "sats")
-            fnlist_sats = glob(os.path.join(drn, bnpat_sats))
+            fnlist_sats = glob(os.path.join(escape(drn), bnpat_sats))
             bnlist_sats = [os.path.basename(fn) for fn in fnlist_sats]
 
             satdata_collector = []
@@ -260,11 +259,10 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 np.save(fnout, satdata)
 
     for subvol in range(10):
-        fname_pat = os.path.join(drn, f"subvol_{subvol}*_mah_params.*.txt")
+        fname_pat = os.path.join(escape(drn), f"subvol_{subvol}*_mah_params.*.txt")
         fname_list = glob(fname_pat)
-        if len(fname_list) > 0:
-            command = "rm " + fname_pat
-            subprocess.check_output(command, shell=True)
+        for fname in fname_list:
+            os.remove(fname)
 
 
 def tabulate_target_means_vars(
@@ -273,10 +271,10 @@ def tabulate_target_means_vars(
     """"""
     lgt0 = np.log10(T0_SMDPL)
 
-    cens_fname_list = glob(os.path.join(mah_params_drn, "*cens.npy"))
+    cens_fname_list = glob(os.path.join(escape(mah_params_drn), "*cens.npy"))
     cens_bname_list = [os.path.basename(fn) for fn in cens_fname_list]
 
-    sats_fname_list = glob(os.path.join(mah_params_drn, "*sats.npy"))
+    sats_fname_list = glob(os.path.join(escape(mah_params_drn), "*sats.npy"))
     sats_bname_list = [os.path.basename(fn) for fn in sats_fname_list]
 
     cens_lgm_obs_arr = np.array([float(bn.split("_")[1]) for bn in cens_bname_list])
-- 
2.43.0


From a2bace1770f9ffe08a3b07ab31670df1db1b397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:58 +0000
Subject: [PATCH 23/23] fix: trimmed points do not contribute to trimmed mean
 and variance when they are infinite

---
 diffmah/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 98f6a8d..e2dc988 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -167,6 +167,7 @@ def trimmed_mean(x, p_trim):
     """
     _weights = _get_trimmed_weights(x, p_trim)
     weights = _weights / _weights.sum()
+    x = jnp.where(_weights > 0, x, 0.0)  # 0 * inf is nan
     trimmed_mean = jnp.sum(x * weights)
     return trimmed_mean
 
@@ -193,6 +194,7 @@ def trimmed_mean_and_variance(x, p_trim):
     _weights = _get_trimmed_weights(x, p_trim)
     weights = _weights / _weights.sum()
 
+    x = jnp.where(_weights > 0, x, 0.0)  # 0 * inf is nan
     trimmed_mean = jnp.sum(x * weights)
 
     num_nonzero_weights = jnp.sum(weights > 0.0)
-- 
2.43.0

