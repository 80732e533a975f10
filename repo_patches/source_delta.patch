From ecf157bc3adee76abff2c7c0e4326821a9515ffb Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 01/19] fix: fall back on the approximate response function
 when its file is missing

load_response_function caught FileExistsError, which np.load never raises for a
missing file, so the documented fallback and warning could not happen.
---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..ab719ef 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From 3a56e5a0ca13956988e3f90484838b7a0d0f8acc Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 02/19] fix: don't edit the caller's timesteps in evol_ecc

A 2D `timesteps` array was overwritten in place when some of its times were too
close to the merger.
---
 src/legwork/evol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..ebd94fa 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -383,7 +383,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
-            # set them all equal to the previous timestep before passing limit
+            # set them all equal to the previous timestep before passing limit (without editing user input)
+            timesteps = timesteps.copy()
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
             timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]
-- 
2.43.0


From 90d6f996c5a17edffe66d76c1479432c1013a1b8 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 03/19] fix: allow a single source with a position but no
 inclination or polarisation

len() of a scalar mass raised a TypeError before the inputs were made into arrays.
---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..3078bd0 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From 478062d0da7a84b5fb61472384cb70f8d2f16364 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 04/19] fix: don't overwrite SNRs that were already returned

The SNR functions updated self.snr and self.max_snr_harmonic in place, which
changed the arrays that an earlier call had returned to the user.
---
 src/legwork/source.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3078bd0..0f9829b 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1050,13 +1050,15 @@ class Source():
                                                                    approximate_R=approximate_R,
                                                                    confusion_noise=confusion_noise,)
 
-        if self.max_snr_harmonic is None:
-            self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
-        self.max_snr_harmonic[insp_sources] = msh[insp_sources]
+        # update copies since the current arrays may have already been returned to the user
+        max_snr_harmonic = (np.zeros(self.n_sources).astype(int) if self.max_snr_harmonic is None
+                            else np.array(self.max_snr_harmonic))
+        max_snr_harmonic[insp_sources] = msh[insp_sources]
+        all_snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
+        all_snr[insp_sources] = snr[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.max_snr_harmonic = max_snr_harmonic
+        self.snr = all_snr
 
         return snr[which_sources]
 
@@ -1177,13 +1179,15 @@ class Source():
                                                                  approximate_R=approximate_R,
                                                                  confusion_noise=confusion_noise)
 
-        if self.max_snr_harmonic is None:
-            self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
-        self.max_snr_harmonic[insp_sources] = msh[insp_sources]
+        # update copies since the current arrays may have already been returned to the user
+        max_snr_harmonic = (np.zeros(self.n_sources).astype(int) if self.max_snr_harmonic is None
+                            else np.array(self.max_snr_harmonic))
+        max_snr_harmonic[insp_sources] = msh[insp_sources]
+        all_snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
+        all_snr[insp_sources] = snr[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.max_snr_harmonic = max_snr_harmonic
+        self.snr = all_snr
 
         return snr[which_sources]
 
-- 
2.43.0


From b3489107ada0499de16a128c78b06864efc880be Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 05/19] fix: keep the recorded SNRs if calculating new ones
 fails part-way

If the evolving sources failed after the stationary ones had succeeded then
self.snr and self.max_snr_harmonic were left as a mixture of old and new values.
---
 src/legwork/source.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 0f9829b..3aa9cee 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -7,6 +7,7 @@ from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
 import os
 from copy import copy
+from functools import wraps
 
 from . import utils, strain, psd, evol
 from . import snr as sn
@@ -37,6 +38,20 @@ DEFAULT_SC_PARAMS = {
 }
 
 
+def _keep_snr_on_failure(func):
+    """Decorator which keeps the recorded SNRs as they were if calculating new ones fails part-way, such that
+    they are never a mixture of old and new values"""
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+        previous = self.snr, self.max_snr_harmonic
+        try:
+            return func(self, *args, **kwargs)
+        except BaseException:
+            self.snr, self.max_snr_harmonic = previous
+            raise
+    return wrapper
+
+
 class Source():
     """Class for generic GW sources
 
@@ -828,6 +843,7 @@ class Source():
         # return all sources, not just inpsiralling ones
         return h_c_n[which_sources, :]
 
+    @_keep_snr_on_failure
     def get_snr(self, t_obs=None, instrument=None, custom_psd=None, L=None, approximate_R=None,
                 confusion_noise=None, n_step=100, verbose=False, which_sources=None):
         """Computes the SNR for a generic binary. Also records the harmonic with maximum SNR for each
-- 
2.43.0


From ce1326458e07e5ee12acbb5364d7e09e6f18bea9 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 06/19] fix: evolve sources in place all at once

The remaining merger time was calculated after the other attributes had been
replaced, so a failure there left sources that were only partly evolved.
---
 src/legwork/source.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3aa9cee..37ba9d9 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1329,13 +1329,12 @@ class Source():
             # return the new source class
             return evolved_sources
         else:
-            # otherwise just update the existing class with evolution
+            # otherwise just update the existing class with evolution (once everything has been calculated)
+            t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)
             self.ecc = ecc_evol
             self.f_orb = f_orb_evol
             self.merged = merged
-
-            if self.t_merge is not None:
-                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)
+            self.t_merge = t_merge
 
     def plot_source_variables(self, xstr, ystr=None, which_sources=None,
                               exclude_merged_sources=True, log_scale=False, **kwargs):  # pragma: no cover
-- 
2.43.0


From 8862211d95b99e27f1ac858227412db4ff4df15e Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 07/19] fix: keep the weights and interpolate_sc when evolving
 into a new class

The new class lost the statistical weights, and was always marked as having an
interpolated sensitivity curve, even if interpolation had been turned off.
---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 37ba9d9..65948d7 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1311,12 +1311,12 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 3c571a5030e8da00f04e359ac6a0065856d97d44 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 08/19] fix: undo changes to sc_params that have no sensitivity
 curve

If re-interpolating failed (e.g. 'thiele21' noise with another mission length)
then the parameters had changed but the curve had not, and repeating the change
or reading the parameters gave no hint of that.
---
 src/legwork/source.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 65948d7..631f031 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -698,7 +698,12 @@ class Source():
         changed = current_params is None or new_params != current_params
         self._sc_params = new_params
         if changed:
-            self.set_sc()
+            try:
+                self.set_sc()
+            except BaseException:
+                # keep the parameters consistent with the curve if there's no curve for the new ones
+                self._sc_params = current_params
+                raise
 
     def get_source_mask(self, circular=None, stationary=None, t_obs=None):
         """Produce a mask of the sources.
@@ -1575,26 +1580,33 @@ class SensitivityCurveParams(dict):
                 ', '.join(["`{}`".format(key) for key in unknown_keys]),
                 ', '.join(["`{}`".format(key) for key in DEFAULT_SC_PARAMS])))
 
-    def _re_interpolate(self):
-        """Re-interpolate the sensitivity curve of the class that these parameters belong to"""
+    def _re_interpolate(self, previous):
+        """Re-interpolate the sensitivity curve of the class that these parameters belong to. Go back to the
+        ``previous`` parameters if that isn't possible, so that they always match the curve."""
         if self._source is not None:
-            self._source.set_sc()
+            try:
+                self._source.set_sc()
+            except BaseException:
+                super().update(previous)
+                raise
 
     def __setitem__(self, key, value):
         self._check_keys([key])
         changed = self.get(key) != value
+        previous = dict(self)
         super().__setitem__(key, value)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(previous)
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
         new_params = dict(*args, **kwargs)
         self._check_keys(new_params)
         changed = any(self.get(key) != value for key, value in new_params.items())
+        previous = dict(self)
         super().update(new_params)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(previous)
 
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
-- 
2.43.0


From ac3010e98615c392e5cdc9bf9074ab38ced032bb Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 09/19] fix: re-interpolate the sensitivity curve for sc_params
 |= {...}

The |= operator and setdefault of dict bypass update and __setitem__, so the
curve was left stale and unknown parameters were accepted.
---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 631f031..4d880dc 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1608,6 +1608,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate(previous)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        # every parameter always has a value, so there is never a default to set
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 100d52d29abe809ca1a8c5c2ea0b121a2f034c02 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 10/19] fix: allow sources to be deep-copied

copy.deepcopy rebuilt sc_params item by item, which re-interpolated the curve of
a class that had no attributes yet and raised an AttributeError.
---
 src/legwork/source.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 4d880dc..00aaa1d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -6,7 +6,7 @@ import numpy as np
 from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
 import os
-from copy import copy
+from copy import copy, deepcopy
 from functools import wraps
 
 from . import utils, strain, psd, evol
@@ -1621,6 +1621,13 @@ class SensitivityCurveParams(dict):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
 
+    def __deepcopy__(self, memo):
+        """Deepcopy the parameters without triggering any re-interpolation"""
+        params = SensitivityCurveParams(deepcopy(dict(self), memo))
+        memo[id(self)] = params
+        params._source = deepcopy(self._source, memo)
+        return params
+
     def _cant_remove(self, *args, **kwargs):
         raise TypeError("Sensitivity curve parameters can't be removed, only changed")
 
-- 
2.43.0


From 7c75cdd8d550880e92f2f91ac2897f77746feaf1 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 11/19] fix: undo a change of gw_lum_tol if its harmonics can't
 be calculated

A failure (e.g. reading the harmonics file, or a tolerance with no transition to
eccentric) left the new tolerance in place with the old harmonics functions, and
assigning the same tolerance again did nothing.
---
 src/legwork/source.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 00aaa1d..9bc08e7 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -26,6 +26,8 @@ _ARR_ATTRS = [
 _NOT_KWARG_ATTRS = [
     "t_merge", "snr", "max_snr_harmonic", "merged"
 ]
+# everything that is derived from the tolerance on the GW luminosity (and the tolerance itself)
+_TOL_ATTRS = ["_gw_lum_tol", "_ecc_tol", "harmonics_required", "max_strain_harmonic"]
 
 # the parameters used for the interpolated sensitivity curve and their default values
 DEFAULT_SC_PARAMS = {
@@ -628,9 +630,17 @@ class Source():
         if gw_lum_tol == getattr(self, "_gw_lum_tol", None):
             return
 
+        previous = {key: self.__dict__[key] for key in _TOL_ATTRS if key in self.__dict__}
         self._gw_lum_tol = gw_lum_tol
-        self.create_harmonics_functions()
-        self.find_eccentric_transition()
+        try:
+            self.create_harmonics_functions()
+            self.find_eccentric_transition()
+        except BaseException:
+            # keep the tolerance consistent with the functions if they can't be calculated for the new one
+            for key in _TOL_ATTRS:
+                self.__dict__.pop(key, None)
+            self.__dict__.update(previous)
+            raise
 
     def set_g(self, interpolate_g):
         """Set Source g function if user wants to interpolate g(n,e).
-- 
2.43.0


From f92546c9fd59b2c6689c1e6ab35ef0cdfac23184 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 12/19] fix: keep an 'auto' mission length when calculating
 SNRs

The SNR functions replaced t_obs='auto' in sc_params with the mission length of
the current instrument, so an SNR that was calculated after changing instrument
used the mission length of the previous one.
---
 src/legwork/source.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 9bc08e7..23dc142 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1012,6 +1012,7 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
+        sc_t_obs = t_obs
         if t_obs == "auto":
             t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
@@ -1020,7 +1021,7 @@ class Source():
         confusion_noise = self.sc_params["confusion_noise"] if confusion_noise is None else confusion_noise
 
         # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)
-        self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
+        self.sc_params.update({"t_obs": sc_t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
@@ -1144,6 +1145,7 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
+        sc_t_obs = t_obs
         if t_obs == "auto":
             t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
@@ -1152,7 +1154,7 @@ class Source():
         confusion_noise = self.sc_params["confusion_noise"] if confusion_noise is None else confusion_noise
 
         # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)
-        self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
+        self.sc_params.update({"t_obs": sc_t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
-- 
2.43.0


From 5610054ab9089b575888b6b439c0bd95186e8739 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 13/19] fix: use the same 'auto' mission length for DECIGO SNRs
 and noise

The power spectral density takes 4 years but SNRs were integrated over 5 years.
---
 src/legwork/source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 23dc142..524d369 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -751,7 +751,7 @@ class Source():
         elif stationary is True or stationary is False:
             t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
             if t_obs == "auto":
-                t_obs = 4 * u.yr if self.sc_params["instrument"] == "LISA" else 5 * u.yr
+                t_obs = 4 * u.yr if self.sc_params["instrument"] in ["LISA", "DECIGO"] else 5 * u.yr
             stat_mask = evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,
                                                     ecc_i=self.ecc, stat_tol=self.stat_tol)
             if stationary is False:
@@ -1014,7 +1014,7 @@ class Source():
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
         sc_t_obs = t_obs
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1147,7 +1147,7 @@ class Source():
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
         sc_t_obs = t_obs
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
-- 
2.43.0


From f0ec5b0616443519960e6121279a6c9f05ab5f1f Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 14/19] fix: load sources that were saved with a custom
 instrument

The custom PSD can't be saved, so interpolating the sensitivity curve before the
user had supplied it again (as the warning tells them to) raised a TypeError.
---
 src/legwork/source.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 524d369..8a6a76c 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -491,9 +491,14 @@ class Source():
                         and saved_class.__init__ is Source.__init__):
                     klass = saved_class
 
+            # a curve can only be interpolated once there's a function for it
+            no_curve = sc_params.get("instrument") == "custom" and sc_params.get("custom_psd") is None
+
             sources = klass(n_proc=int(n_proc), gw_lum_tol=float(file.attrs["gw_lum_tol"]),
                             stat_tol=float(file.attrs["stat_tol"]), interpolate_g=bool(interpolate_g),
-                            interpolate_sc=bool(interpolate_sc), sc_params=sc_params, **kwargs)
+                            interpolate_sc=bool(interpolate_sc) and not no_curve,
+                            sc_params=sc_params, **kwargs)
+            sources.interpolate_sc = bool(interpolate_sc)
 
             # add back anything that had already been calculated when the sources were saved
             for name in _NOT_KWARG_ATTRS:
-- 
2.43.0


From 36c0871b36e9f70de619c0765791f7486e05c5c6 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 15/19] fix: count the eccentric evolving sources that aren't
 plotted

The warning counted the circular ones a second time.
---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 8a6a76c..b02a235 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1547,7 +1547,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From 6d9b0afd3776136e45761c79114c258a41b8ab57 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 16/19] fix: save sources all at once

An existing file was truncated before the new one was written, so a failure or a
crash part-way through saving destroyed it. Errors while writing the values of
the sources were ignored by HDF5, so saving appeared to work but stored zeros.
A file that another process created during a save with overwrite=False was also
replaced.
---
 src/legwork/source.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index b02a235..eec5564 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -5,7 +5,10 @@ import h5py
 import numpy as np
 from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
+import errno
+import io
 import os
+import uuid
 from copy import copy, deepcopy
 from functools import wraps
 
@@ -357,7 +360,9 @@ class Source():
             raise FileExistsError(("{} already exists, set `overwrite=True` if you want to "
                                    "replace it").format(file_name))
 
-        with h5py.File(file_name, "w") as file:
+        # build the file in memory, so that nothing on disk changes until all of it can be written
+        buffer = io.BytesIO()
+        with h5py.File(buffer, "w") as file:
             # record the settings needed to recreate the class
             file.attrs["legwork_version"] = __version__
             file.attrs["class_name"] = self.__class__.__name__
@@ -393,6 +398,8 @@ class Source():
                 else:
                     sc_group.attrs[key] = value
 
+        _write_file(file_name, buffer.getvalue(), overwrite)
+
     @classmethod
     def from_file(cls, file_name, interpolate_g=None, interpolate_sc=None, n_proc=None):
         """Create a class of sources from a file that was created with
@@ -1710,6 +1717,36 @@ class VerificationBinaries(Source):
         return "<VerificationBinaries | Kupfer+2018>"
 
 
+def _write_file(file_name, contents, overwrite):
+    """Write ``contents`` to a file such that it always holds either everything or whatever it held before,
+    even if the writing fails or is interrupted. An existing file is only replaced if ``overwrite`` is True"""
+    # write somewhere else (in the same folder) first and wait until it has reached the disk
+    file_name = os.path.realpath(file_name)
+    temp_name = "{}.{}.tmp".format(file_name, uuid.uuid4().hex)
+    try:
+        with open(temp_name, "xb") as file:
+            file.write(contents)
+            file.flush()
+            os.fsync(file.fileno())
+
+        # then move it into place, a link fails if another process created the file in the meantime
+        if not overwrite:
+            try:
+                os.link(temp_name, file_name)
+                return
+            except OSError as error:
+                if error.errno not in (errno.EPERM, errno.ENOSYS, errno.EOPNOTSUPP):
+                    raise
+            # some file systems have no links, so reserve the name instead
+            open(file_name, "xb").close()
+        os.replace(temp_name, file_name)
+    finally:
+        try:
+            os.remove(temp_name)
+        except OSError:
+            pass
+
+
 def _write_dataset(group, name, value):
     """Write ``value`` to ``group`` as a dataset called ``name``, recording any units as an attribute.
     Anything that is ``None`` is simply not written to the file."""
-- 
2.43.0


From e50cfd49c22d170e02f595339024283969211b6f Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 17/19] fix: record no SNR for merged sources in
 get_snr_stationary and get_snr_evolving

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index eec5564..1b455c8 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1099,7 +1099,7 @@ class Source():
                             else np.array(self.max_snr_harmonic))
         max_snr_harmonic[insp_sources] = msh[insp_sources]
         all_snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
-        all_snr[insp_sources] = snr[insp_sources]
+        all_snr[which_sources] = snr[which_sources]
 
         self.max_snr_harmonic = max_snr_harmonic
         self.snr = all_snr
@@ -1229,7 +1229,7 @@ class Source():
                             else np.array(self.max_snr_harmonic))
         max_snr_harmonic[insp_sources] = msh[insp_sources]
         all_snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)
-        all_snr[insp_sources] = snr[insp_sources]
+        all_snr[which_sources] = snr[which_sources]
 
         self.max_snr_harmonic = max_snr_harmonic
         self.snr = all_snr
-- 
2.43.0


From e81e690d11a22abde60d50d0d6b2b40e743b57df Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 18/19] fix: plot histograms of weighted sources with the
 default bins

---
 src/legwork/visualisation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..0132978 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,11 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+            if weights is not None and isinstance(plot_args["bins"], str):
+                # numpy can't choose bins for weighted data, so choose those for the unweighted data instead
+                unit = x.unit if isinstance(x, u.quantity.Quantity) else 1
+                plot_args["bins"] = np.histogram_bin_edges(x / unit, bins=plot_args["bins"],
+                                                             range=plot_args.get("range")) * unit
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From 3cd77676dfb2b3119777324e65c9ed9396720112 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 19/19] fix: draw frequencies in Hz whatever units they are
 supplied in

---
 src/legwork/visualisation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 0132978..85ae1ae 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -364,6 +364,9 @@ def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=
     if frequency_range is None:
         frequency_range = np.logspace(-5, 0, 1000) * u.Hz
 
+    # the axes are in Hz no matter which units were supplied
+    frequency_range = frequency_range.to(u.Hz)
+
     if fig is None or ax is None:
         fig, ax = plt.subplots(figsize=figsize)
 
@@ -491,6 +494,9 @@ def plot_sources_on_sc(f_dom, snr, weights=None, snr_cutoff=0, t_obs="auto",
         logger.error("There are no binaries above provided `snr_cutoff`")
         return fig, ax
 
+    # the sensitivity curve is in Hz no matter which units were supplied
+    f_dom = f_dom.to(u.Hz)
+
     # calculate asd that makes it so height above curve is snr
     sqrt_psd = np.sqrt(psd.power_spectral_density(f=f_dom[detectable],
                                                   instrument=instrument,
-- 
2.43.0

