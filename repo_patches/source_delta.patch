From 4b2edc9866cd751c8909c06d0e40b128d95141b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 01/13] fix: honour left_bases for particle-number and Coulomb
 terms

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..9e4447a 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -218,6 +218,10 @@ def matrix_function(
         shape = (right_dim, right_dim)
     else:
         shape = (left_bases.shape[0], right_dim)
+        # The special cores for these terms take it for granted that the bases
+        # before and after the operation are identical
+        if special_tag in ("number", "Coulomb"):
+            special_tag = "general"
 
     if special_tag == "hopping":
         core_func = _core_hopping
-- 
2.43.0


From fab1150718d9d3b94bf3dadae3faded1373c8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 02/13] fix: reject repeated single-particle states in a
 subspace

---
 HamiltonianPy/hilbertspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index ba75773..6227917 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -65,7 +65,8 @@ def is_valid_states_collection(states):
     single-particle-state collection.
 
     1. `states` must be non-empty tuple, list or set;
-    2. All elements of `states` must be non-negative integer.
+    2. All elements of `states` must be non-negative integer;
+    3. All elements of `states` must be distinct.
 
     Returns
     -------
@@ -74,7 +75,8 @@ def is_valid_states_collection(states):
 
     if (
         isinstance(states, (tuple, list, set)) and len(states) > 0 and
-        all(isinstance(state, int) and state >= 0 for state in states)
+        all(isinstance(state, int) and state >= 0 for state in states) and
+        len(set(states)) == len(states)
     ):
         return True
     else:
-- 
2.43.0


From cf23a940b6c6dd574022cb7c713243a2c44da54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 03/13] fix: reject subspace particle numbers which are not
 integers

---
 HamiltonianPy/hilbertspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index 6227917..9e36283 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -99,7 +99,9 @@ def is_valid_subspace_specifier(specifier):
         return True
     elif isinstance(specifier, (list, tuple)) and len(specifier) == 2:
         states, p_num = specifier
-        if isinstance(states, int) and states > 0 and states >= p_num:
+        if not isinstance(p_num, int):
+            return False
+        elif isinstance(states, int) and states > 0 and states >= p_num:
             return True
         elif is_valid_states_collection(states) and len(states) >= p_num:
             return True
@@ -136,7 +138,9 @@ def subspace_specifier_preprocess(specifier):
         res = (tuple(range(specifier)), -1)
     elif isinstance(specifier, (tuple, list)) and len(specifier) == 2:
         states, p_num = specifier
-        if isinstance(states, int) and states > 0 and states >= p_num:
+        if not isinstance(p_num, int):
+            raise ValueError(error_msg.format(specifier))
+        elif isinstance(states, int) and states > 0 and states >= p_num:
             res = (tuple(range(states)), p_num)
         elif is_valid_states_collection(states) and len(states) >= p_num:
             res = (tuple(states), p_num)
-- 
2.43.0


From 28cd0a3e9eccba896e3fcac6bfdff095fc65f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 04/13] fix: compute permutation and combination counts in
 exact integer arithmetic

---
 HamiltonianPy/tools/PandC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..1d67b8c 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,6 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        return factorial(n + k - 1) // factorial(k) // factorial(n - 1)
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // factorial(k) // factorial(n - k)
-- 
2.43.0


From 5e8b2e451eba30e46ab4491e4b981acfe06f90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 05/13] fix: search far enough when the translation vectors are
 skewed

---
 HamiltonianPy/lattice/lattice.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..f2aee32 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -266,23 +266,14 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # If the translation `dR = n_i * a_i` brings one point of the cluster to
+        # within `ref_distance` of another, then `|dR|` is no larger than
+        # `ref_distance` plus the diameter of the cluster. The coefficients
+        # are `n_i = b_i . dR / (2 * pi)`, so they are bounded by
+        # `|b_i| * |dR| / (2 * pi)` no matter how skewed the vectors are.
+        max_length = ref_distance + np.max(cdist(self._points, self._points))
+        max_b = np.max(np.linalg.norm(self._bs, axis=-1))
+        return int(np.ceil(max_length * max_b / (2 * np.pi)))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From d289185c875e9c7c1e4150477e4a672a4c5bc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 06/13] fix: do not skip neighbor distances

---
 HamiltonianPy/lattice/lattice.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index f2aee32..5d2469c 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -119,16 +119,13 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        if np.any(pdist(points) < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # Cache for the neighbor distances
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -428,14 +425,20 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
+        # `_all_distances` is complete up to its last entry
+        if nth >= len(self._all_distances):
+            # The distances within any part of the lattice may skip some
+            # distances of the lattice, so their nth gives an upper bound.
             sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
-            )
-            return self._all_distances[nth]
+            upper_bound = self._distances_to(sites)[nth]
+            sites = self._sites_factory(scope=self._guess_scope(upper_bound))
+            distances = self._distances_to(sites)
+            self._all_distances = distances[distances <= upper_bound]
+        return self._all_distances[nth]
+
+    def _distances_to(self, sites):
+        # All distances from the points of the cluster to the given sites
+        return np.unique(np.rint(cdist(self._points, sites) * _ZOOM)) / _ZOOM
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From cf65c8ec22805da909fcfea9b6ada2c398d0d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 07/13] fix: sample the shortest k-path segment with exactly
 min_num points

---
 HamiltonianPy/lattice/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 5d2469c..7b47ddf 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -576,7 +576,7 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    sampling_nums = [int(min_num * (length / min_length)) for length in lengths]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From 6115a929d9cff41422cc32c4a772d2f29430fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 08/13] fix: take the direction of short rotation axes into
 account

---
 HamiltonianPy/rotation3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/rotation3d.py b/HamiltonianPy/rotation3d.py
index 5e7f6b2..db31bde 100644
--- a/HamiltonianPy/rotation3d.py
+++ b/HamiltonianPy/rotation3d.py
@@ -374,7 +374,7 @@ def RotationGeneral(axis, theta, *, deg=False, inversion=False):
                 "The given `axis` is a zero vector: {0}".format(axis)
             )
 
-        if dxy < _VIEW_AS_ZERO:
+        if dxy < _VIEW_AS_ZERO * dr:
             sin_alpha = 0.0
             cos_alpha = 1.0
         else:
-- 
2.43.0


From 29eb39b1ad8a5db48cca4c3ab4e4c95f5fe61f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 09/13] fix: import line2d from the package

---
 HamiltonianPy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..655ee14 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
-- 
2.43.0


From f51835b32d21d619841e1bd999e715fcb4296dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 10/13] fix: locate points in line with vertical polygon edges

---
 HamiltonianPy/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 655ee14..e671341 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,9 +145,9 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
-                x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                dr = p1 - p0
+                ratio = np.dot(np.array(point) - p0, dr) / np.dot(dr, dr)
+                if 0 <= ratio <= 1:
                     return Location.BOUNDARY
                 else:
                     return Location.OUTSIDE
-- 
2.43.0


From 77bb78f9c0cf84c93b98d7d3d54b0265d817fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 11/13] fix: Draw2DLattice.show saves the figure in the
 directory given by path

The figure was saved next to the directory when path had no final separator
(path="figures" gave ./figuressquare.pdf).
---
 HamiltonianPy/tools/Draw2DLattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..226dd9e 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -176,7 +176,7 @@ def show(
                 name = "kagome.pdf"
             else:
                 name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
+        fig.savefig(Path(path) / name, dpi=200)
     plt.close("all")
 
 
-- 
2.43.0


From 532bd43ec67d55a0d6225c784c4f24da2bfa41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:11 +0000
Subject: [PATCH 12/13] fix: RunTimeEnv restores the number of MKL threads on
 exit

mkl.get_max_threads() returns the number set on entry, so the setting of the
environment remained after it.
---
 HamiltonianPy/tools/runtimeenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..772e5df 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,6 +63,7 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
+        self._previous_threads_num = mkl.get_max_threads()
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
@@ -84,7 +85,7 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        mkl.set_num_threads(self._previous_threads_num)
 
         if self._rd:
             print("=" * 80)
-- 
2.43.0


From a54422ca97f5e575fdaf8051e223229afeea3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:52 +0000
Subject: [PATCH 13/13] fix: Lattice.show(savefig=True) raised NameError

Path was used without being imported.
---
 HamiltonianPy/lattice/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 7b47ddf..0f47704 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0

