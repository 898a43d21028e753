From 6594b5de08f470c9cb924b2fcb02833180c2b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 01/27] fix: accept integer coordinates when adjusting for
 anisotropy

The in-place subtraction of the (float) centre raised UFuncTypeError for
integer query coordinates and modified the array passed in.
---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..28fc8da 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     center = np.asarray(center)[None, :]
     angle = np.asarray(angle) * np.pi / 180
 
-    X -= center
+    X = X - center
 
     Ndim = X.shape[1]
 
-- 
2.43.0


From 0fe30c89d3f22c8a56f2dfa9533a92066030c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 02/27] fix: euclid3_to_great_circle no longer modifies its
 argument

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 28fc8da..c132038 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From 580342d41d90f214ee9fa76b74abcf180c4fa643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 03/27] fix: copy the caller's variogram parameter and
 functional drift lists

The lists were stored by reference, so changing them after construction
silently changed the kriging model.
---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index c132038..b7aac69 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..5ecbc69 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -505,7 +505,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..bcd9bae 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From baad761ea3fbef5e58f8865fcfdf00e1f062b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 04/27] fix: limit the moving window to the number of data
 points

With n_closest_points larger than the data set the KD-tree pads the
neighbour list with an out-of-range index: the loop backend failed with an
unrelated error and the Cython backend read and wrote out of bounds.
---
 src/pykrige/ok.py   | 3 +++
 src/pykrige/ok3d.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..d028e11 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -844,6 +844,9 @@ class OrdinaryKriging:
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
+        if n_closest_points is not None:
+            # a window can not hold more points than there are data
+            n_closest_points = min(n_closest_points, n)
         a = self._get_kriging_matrix(n)
 
         if style in ["grid", "masked"]:
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..3994a5f 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -837,6 +837,9 @@ class OrdinaryKriging3D:
         nx = xpts.size
         ny = ypts.size
         nz = zpts.size
+        if n_closest_points is not None:
+            # a window can not hold more points than there are data
+            n_closest_points = min(n_closest_points, n)
         a = self._get_kriging_matrix(n)
 
         if style in ["grid", "masked"]:
-- 
2.43.0


From 0d65fb2cdd08c565f944395fa6b55ea33aafcc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 05/27] fix: use the right specified drift value in the
 universal kriging loops

The drift array was indexed with the row of the kriging system instead of
the index of the kriging point.
---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 5ecbc69..3fdf266 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index bcd9bae..67c0144 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 86018b4c4bbcfc81772e8adb78988a4dfc391abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 06/27] fix: point_log drift at a well location with the loop
 backend

log_dist is a scalar there, so the item assignment raised TypeError.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 3fdf266..14e6b70 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From bccf6fc97c93c52ff024d1a6995ffb2268aaa4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 07/27] fix: keep the wells in the adjusted frame when the
 anisotropy is updated

update_variogram_model re-adjusted the data but left the point_log wells in
the previous coordinate frame.
---
 src/pykrige/uk.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 14e6b70..10ea96e 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,14 +448,8 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            )
+            self.point_log_orig = point_log
+            self.point_log_array = self._adjust_point_log(point_log)
             if self.verbose:
                 print(
                     "Implementing external point-logarithmic drift; "
@@ -509,6 +503,18 @@ class UniversalKriging:
         else:
             self.functional_drift = False
 
+    def _adjust_point_log(self, point_log):
+        """Rotates well coordinates into the adjusted coordinate frame."""
+        point_log_array = np.zeros(point_log.shape)
+        point_log_array[:, 2] = point_log[:, 2]
+        point_log_array[:, :2] = _adjust_for_anisotropy(
+            np.vstack((point_log[:, 0], point_log[:, 1])).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+        return point_log_array
+
     def _calculate_data_point_zscalars(self, x, y, type_="array"):
         """Determines the Z-scalar values at the specified coordinates
         for use when setting up the kriging matrix. Uses bilinear
@@ -721,6 +727,8 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self.point_log_array = self._adjust_point_log(self.point_log_orig)
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 7175262ad3215e735bbeb05327963dd2b21d5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 08/27] fix: do not require the external drift grid to cover
 masked cells

The vectorized backend looked the drift up for masked cells as well and
failed where the loop backend succeeds.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 10ea96e..a0da16b 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -973,8 +973,8 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From 193682c6ce7dfaf5c61d275620ffcf67966304d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 09/27] fix: never replace a custom variogram function in the C
 backend

The Cython code chooses its variogram by function name, so a user function
named like a built-in one was silently ignored.
---
 src/pykrige/ok.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index d028e11..9e4b686 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -916,6 +916,15 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            # the Cython code picks its own implementation by name, so it must
+            # not be used for any other function that happens to share a name
+            if backend == "C" and not any(
+                self.variogram_function is func for func in self.variogram_dict.values()
+            ):
+                raise NotImplementedError(
+                    "The C backend only supports the built-in variogram models."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From e3a8072defebfaa7a5e3b5fc870b8bdc3b3b8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 10/27] fix: accept integer variogram parameters in the C
 backend

---
 src/pykrige/lib/cok.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..da6a9ad 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,7 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +125,7 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From 7885fc88e846507a3935950eed2f77c2802a6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 11/27] fix: a failed update_variogram_model leaves the model
 unchanged

The new model name and function were stored before the parameters were
checked and fitted, so a rejected or failed update left a mix of the old and
the new variogram behind that answered queries silently wrong.
---
 src/pykrige/core.py | 21 +++++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 29 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index b7aac69..39efc1c 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+import functools
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -33,6 +35,25 @@ eps = 1.0e-10  # Cutoff for comparison to zero
 P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
 
 
+def _restore_on_failure(method):
+    """Decorator for methods that change the state of a kriging object.
+
+    If the method fails, the object is left as it was before the call. The
+    decorated method may replace attributes, but must not modify them in place.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = state
+            raise
+
+    return wrapper
+
+
 def great_circle_distance(lon1, lat1, lon2, lat2):
     """Calculate the great circle distance between one or multiple pairs of
     points given in spherical coordinates. Spherical coordinates are expected
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 9e4b686..308357a 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 3994a5f..ffda238 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index a0da16b..f90e21f 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -633,6 +634,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 67c0144..23f0472 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From 910e73bef1c04a437b0acf7fb6c6d884c028bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/27] fix: Krige.execute no longer modifies the dict of
 points it is given

---
 src/pykrige/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..7edac08 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -282,7 +282,7 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From f06ff6711dfc11304b7a97fe52e0632a01c2229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 13/27] fix: do not share the default estimator between kriging
 instances

The mutable default argument made every default RegressionKriging (and
ClassificationKriging) fit the same estimator.
---
 src/pykrige/ck.py | 4 +++-
 src/pykrige/rk.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..fce831b 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -58,7 +58,7 @@ class ClassificationKriging:
 
     def __init__(
         self,
-        classification_model=SVC(),
+        classification_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -79,6 +79,8 @@ class ClassificationKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if classification_model is None:
+            classification_model = SVC()
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 5feb97c..0815620 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -57,7 +57,7 @@ class RegressionKriging:
 
     def __init__(
         self,
-        regression_model=SVR(),
+        regression_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -78,6 +78,8 @@ class RegressionKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if regression_model is None:
+            regression_model = SVR()
         check_sklearn_model(regression_model)
         self.regression_model = regression_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From e7d55e79ada2e04d223f7dd589f6eb9809fc4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 14/27] fix: ClassificationKriging.predict returns class labels

It returned the index into classes_, so predict and score were wrong for any
labels other than 0..k-1.
---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index fce831b..c1a738f 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -169,7 +169,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 37f18c6c18a734d6209b7dde1cdbb89cb19ebe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 15/27] fix: a failed refit no longer leaves a mix of two fits
 behind

When the kriging step of a refit failed, predict combined the new
regression/classification model with the residuals of the previous fit.
---
 src/pykrige/ck.py | 3 ++-
 src/pykrige/rk.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index c1a738f..c759b62 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -122,11 +122,12 @@ class ClassificationKriging:
         y: ndarray
             array of targets (Ns, )
         """
+        # never combine a new classifier with residuals of a previous fit
+        self.krige = []
         self.classification_model.fit(p, y.ravel())
         print("Finished learning classification model")
         self.classes_ = self.classification_model.classes_
 
-        self.krige = []
         for i in range(len(self.classes_) - 1):
             self.krige.append(Krige(**self._kriging_kwargs))
 
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 0815620..64cb2b8 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -121,6 +121,8 @@ class RegressionKriging:
         y: ndarray
             array of targets (Ns, )
         """
+        # never combine a new regression with residuals of a previous fit
+        self.krige.model = None
         self.regression_model.fit(p, y)
         ml_pred = self.regression_model.predict(p)
         print("Finished learning regression model")
-- 
2.43.0


From c52b1329c8f6b9cd486fbd451fc4c5b407b04b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 16/27] fix: write NCOLS and NROWS independently of the locale

The 'n' format uses the thousands separator of LC_NUMERIC, which
read_asc_grid and GIS programs can not read.
---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..f2b6aaf 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -103,16 +103,16 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     with io.open(filename, "w") as f:
         if style == 1:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
             f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
             f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
             f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
             f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
-- 
2.43.0


From 7632a65ec066f050e3e60859cd6f5282fb1938ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 17/27] fix: do not round grid coordinates and spacing in *.asc
 headers

Rounding the origin and the spacing to two decimals moved the cells of any
grid with a finer spacing (0.125 was written as 0.12, 0.001 as 0.00).
---
 src/pykrige/kriging_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index f2b6aaf..8c6a729 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -105,17 +105,17 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         if style == 1:
             f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
-            f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(float(xllcenter)) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(float(yllcenter)) + "\n")
+            f.write("DX             " + "{:<10}".format(float(dx)) + "\n")
+            f.write("DY             " + "{:<10}".format(float(dy)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
             f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(float(xllcorner)) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(float(yllcorner)) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(float(cellsize)) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         else:
             raise ValueError("style kwarg must be either 1 or 2.")
-- 
2.43.0


From cc646780c492e0729b0d0a19b15065f34ced5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 18/27] fix: always separate the values in *.asc files

Values that fill the whole field were written without a separator.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 8c6a729..e8c7cbb 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 05a15b4e06d1412191d452845b097d4420c572d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 19/27] fix: a refused grid write leaves an existing file
 untouched

The output file was opened, and thereby truncated, before the style, the
coordinate system and the values were known to be writable.
---
 src/pykrige/kriging_tools.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index e8c7cbb..88f053d 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -101,7 +101,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         xllcorner = xllcenter - dx / 2.0
         yllcorner = yllcenter - dy / 2.0
 
-    with io.open(filename, "w") as f:
+    with io.StringIO() as f:
         if style == 1:
             f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
@@ -125,6 +125,11 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
                 f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
+        content = f.getvalue()
+
+    # do not touch an existing file before everything has been formatted
+    with io.open(filename, "w") as f:
+        f.write(content)
 
 
 def read_asc_grid(filename, footer=0):
@@ -304,7 +309,7 @@ def write_zmap_grid(
 
     now = datetime.datetime.now()
 
-    with io.open(filename, "w") as f:
+    with io.StringIO() as f:
         f.write("!" + "\n")
         f.write("!     ZIMS FILE NAME :  " + os.path.basename(filename) + "\n")
         f.write(
@@ -350,6 +355,11 @@ def write_zmap_grid(
                         f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
                 if count % nodes_per_line == 0 or m == 0:
                     f.write("\n")
+        content = f.getvalue()
+
+    # do not touch an existing file before everything has been formatted
+    with io.open(filename, "w") as f:
+        f.write(content)
 
 
 def read_zmap_grid(filename):
-- 
2.43.0


From 5e70b940cb679ae149a360d3d16c6b5ee176a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 20/27] fix: read header and body of *.asc files from the same
 open file

The file was opened a second time for the body, so a file replaced in between
was read with the header of one version and the body of the other.
---
 src/pykrige/kriging_tools.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 88f053d..e5958f5 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -170,11 +170,9 @@ def read_asc_grid(filename, footer=0):
     dx = None
     dy = None
     no_data = None
-    header_lines = 0
     with io.open(filename, "r") as f:
         while True:
             string, value = f.readline().split()
-            header_lines += 1
             if string.lower() == "ncols":
                 ncols = int(value)
             elif string.lower() == "nrows":
@@ -214,9 +212,8 @@ def read_asc_grid(filename, footer=0):
             ):
                 break
 
-    raw_grid_array = np.genfromtxt(
-        filename, skip_header=header_lines, skip_footer=footer
-    )
+        raw_grid_array = np.genfromtxt(f, skip_footer=footer)
+
     grid_array = np.flipud(raw_grid_array)
 
     if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-- 
2.43.0


From d21617aeb17986464ac769d6b444f69f829a0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 21/27] fix: reject *.zmap files that hold fewer values than
 the header says

The missing values of a truncated file were returned as uninitialised memory.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index e5958f5..c547869 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -441,7 +441,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != len(data_values) or i_value != len(data_values):
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From bf5c79ef1dc2fcf15632d976baa48c32c69db826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 22/27] fix: read_zmap_grid returns as many coordinates as grid
 values

---
 src/pykrige/kriging_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index c547869..ef97d6e 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -461,6 +461,10 @@ def read_zmap_grid(filename):
     gridx = np.arange(originx, originx + nx * dx, dx)
     gridy = np.arange(originy, originy + ny * dy, dy)
 
+    # see read_asc_grid: np.arange() may return an entry too many
+    gridx = gridx[:nx]
+    gridy = gridy[:ny]
+
     cellsize = (dx, dy)
 
     return z, gridx, gridy, cellsize, no_data_value, coord_sys
-- 
2.43.0


From 24566a1346ad586dff06ecbd7f482ac153b86905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/27] fix: read back the complete coordinate system name of
 *.zmap files

A name such as EPSG:4326 was cut at the colon.
---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ef97d6e..ac55bbe 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -407,9 +407,9 @@ def read_zmap_grid(filename):
         while True:
             line = f.readline()
             if line.startswith("!"):
-                line_strings = line.split(":")
+                line_strings = line.split(":", 1)
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line_strings[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From eaa1715f45c43fb5f51eb0de589f457df189fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 24/27] fix: write masked cells of integer grids as the no-data
 value

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ac55bbe..0c3beff 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -45,7 +45,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     """
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
@@ -280,7 +280,7 @@ def write_zmap_grid(
     field_width = 15
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
-- 
2.43.0


From 14ccbaf849f0b577aa2a8ed2b67fdff5e6f94bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 25/27] fix: accept external drift grids in any order of rows
 and columns

---
 src/pykrige/uk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index f90e21f..99070a4 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -433,6 +433,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # The interpolation needs ascending coordinates.
+            order_x = np.argsort(self.external_Z_array_x, kind="stable")
+            order_y = np.argsort(self.external_Z_array_y, kind="stable")
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[np.ix_(order_y, order_x)]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From b60202632ce08694482050f3143e44c1cf1f596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 26/27] fix: do not lose an existing ZMAP file when its text
 cannot be encoded

write_zmap_grid opened (and so truncated) the file before it turned out
that the coordinate system or the file name in the header cannot be
encoded.  Encode before opening.
---
 src/pykrige/kriging_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 0c3beff..a8187d4 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -14,6 +14,7 @@ Copyright (c) 2015-2020, PyKrige Developers
 """
 import datetime
 import io
+import locale
 import os
 import warnings
 
@@ -354,6 +355,9 @@ def write_zmap_grid(
                     f.write("\n")
         content = f.getvalue()
 
+    # refuse text that the file cannot express before the file is touched
+    content.encode(locale.getpreferredencoding(False))
+
     # do not touch an existing file before everything has been formatted
     with io.open(filename, "w") as f:
         f.write(content)
-- 
2.43.0


From f6dc90faf91788b0442ad7c7bf3cd47a5071bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 27/27] fix: honour pseudo_inv in moving windows

With n_closest_points the system of each window was solved directly even
when the model was created with pseudo_inv=True, so windows with redundant
data raised or returned noise instead of the average of the data.
---
 src/pykrige/lib/cok.pyx | 53 +++++++++++++++++++++++------------------
 src/pykrige/ok.py       |  5 +++-
 src/pykrige/ok3d.py     |  5 +++-
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index da6a9ad..b8fc283 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -41,14 +41,7 @@ cpdef _c_exec_loop(
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
     if pars['pseudo_inv']:
-        if pars['pseudo_inv_type'] == "pinv":
-            a_inv = np.asfortranarray(scipy.linalg.pinv(a_all))
-        elif pars['pseudo_inv_type'] == "pinv2":
-            a_inv = np.asfortranarray(scipy.linalg.pinv2(a_all))
-        elif pars['pseudo_inv_type'] == "pinvh":
-            a_inv = np.asfortranarray(scipy.linalg.pinvh(a_all))
-        else:
-            raise ValueError('Unknown pseudo inverse method selected.')
+        a_inv = np.asfortranarray(_pseudo_inverse(a_all, pars['pseudo_inv_type']))
     else:
         a_inv = np.asfortranarray(scipy.linalg.inv(a_all))
 
@@ -162,21 +155,25 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
-
-        if info > 0:
-            raise ValueError('Singular matrix')
-        elif info < 0:
-            raise ValueError('Wrong arguments')
+        if pars['pseudo_inv']:
+            a2D = a_selection.base[:nb*nb].reshape((nb, nb))
+            x.base[:nb] = np.dot(_pseudo_inverse(a2D, pars['pseudo_inv_type']), b.base[:nb])
+        else:
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
+
+            if info > 0:
+                raise ValueError('Singular matrix')
+            elif info < 0:
+                raise ValueError('Wrong arguments')
 
         z_tmp = 0.0
         ss_tmp = 0.0
@@ -193,6 +190,16 @@ cpdef _c_exec_loop_moving_window(
     return zvalues.base, sigmasq.base
 
 
+def _pseudo_inverse(a, pseudo_inv_type):
+    if pseudo_inv_type == "pinv":
+        return scipy.linalg.pinv(a)
+    elif pseudo_inv_type == "pinv2":
+        return scipy.linalg.pinv2(a)
+    elif pseudo_inv_type == "pinvh":
+        return scipy.linalg.pinvh(a)
+    raise ValueError('Unknown pseudo inverse method selected.')
+
+
 cdef int check_b_vect(long n, double [::1] bd, double[::1] b, double eps) nogil:
     cdef long k
 
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 308357a..7c0bb77 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -752,7 +752,10 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index ffda238..657831b 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -727,7 +727,10 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0

