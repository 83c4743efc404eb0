From 516494c6d8dd38e912a15ba489863bb88f8b346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 01/23] fix: respect left_bases in number and Coulomb terms

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..83f75d5 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -213,19 +213,22 @@ def matrix_function(
     )
 
     right_dim = right_bases.shape[0]
-    if left_bases is None:
+    same_bases = left_bases is None
+    if same_bases:
         left_bases = right_bases
         shape = (right_dim, right_dim)
     else:
         shape = (left_bases.shape[0], right_dim)
 
+    # The specialized functions for the diagonal terms do not search the
+    # `left_bases`, so they only apply when it is the same as `right_bases`.
     if special_tag == "hopping":
         core_func = _core_hopping
         args = (term, right_bases, left_bases)
-    elif special_tag == "number":
+    elif special_tag == "number" and same_bases:
         core_func = _core_particle_number
         args = (term, right_bases)
-    elif special_tag == "Coulomb":
+    elif special_tag == "Coulomb" and same_bases:
         core_func = _core_coulomb
         args = (term, right_bases)
     else:
-- 
2.43.0


From ad24f1fdc57962cfbb57b8b8b7a1abe3418a7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 02/23] fix: search all clusters that can hold a point within
 the given distance

---
 HamiltonianPy/lattice/lattice.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..185f8ef 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -266,23 +266,14 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # If `n` is the coefficient of a translation along the ith translation
+        # vector, then the distance between the points of the translated and
+        # the original cluster is at least (2*pi*|n| - spread_i) / |b_i|, where
+        # `spread_i` is the extent of the cluster along `b_i`.
+        spreads = np.ptp(np.matmul(self._points, self._bs.T), axis=0)
+        norms = np.linalg.norm(self._bs, axis=-1)
+        scopes = (norms * (ref_distance + _VIEW_AS_ZERO) + spreads) / 2 / np.pi
+        return int(np.max(scopes))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From fc2e69126899a3ba9b14a3591f316f6eeb740417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 03/23] fix: neighbor distances of the whole lattice, not of
 one cluster

---
 HamiltonianPy/lattice/lattice.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 185f8ef..ad4d5e4 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -119,16 +119,13 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        if np.any(pdist(points) < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # The neighbor distances already known, extended on demand
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -428,14 +425,18 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
+        radius = self._all_distances[-1]
+        while len(self._all_distances) <= nth:
+            # All distances not larger than `radius` are found in this scope
+            radius += np.min(np.linalg.norm(self._vectors, axis=-1))
+            sites = self._sites_factory(
+                scope=self._guess_scope(radius), no_inversion=False
             )
-            return self._all_distances[nth]
+            dists = cdist(sites, self._points)
+            self._all_distances = np.unique(
+                np.rint(dists[dists <= radius] * _ZOOM)
+            ) / _ZOOM
+        return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From 107a45411ed3e82ec9a5e6eae634fcb465971e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 04/23] fix: getIndex returns a plain integer that getSite
 accepts

---
 HamiltonianPy/lattice/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index ad4d5e4..e55edc2 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -239,7 +239,7 @@ class Lattice:
 
         dist, index = cKDTree(self._points).query(site)
         if dist < _VIEW_AS_ZERO:
-            return index
+            return int(index)
         else:
             raise KeyError("The given site does not belong the lattice!")
 
-- 
2.43.0


From 7faace64a94b3f9eff704ea47e923941b7f0b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 05/23] fix: folded getIndex raises the documented KeyError

---
 HamiltonianPy/lattice/lattice.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index e55edc2..60758af 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -235,7 +235,12 @@ class Lattice:
         assert isinstance(site, np.ndarray) and site.shape == (self._space_dim,)
 
         if fold:
-            site, trash = self.decompose(site)
+            try:
+                site, trash = self.decompose(site)
+            except RuntimeError as error:
+                raise KeyError(
+                    "The given site does not belong the lattice!"
+                ) from error
 
         dist, index = cKDTree(self._points).query(site)
         if dist < _VIEW_AS_ZERO:
-- 
2.43.0


From 003784b47ad59f16e390ea00f4d1eee5a15d630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 06/23] fix: import Path for saving figures of lattices

---
 HamiltonianPy/lattice/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 60758af..a074610 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0


From 719f9c4a8bf222426b103424a893fe0638a5f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 07/23] fix: do not split a neighbor distance by rounding its
 copies

---
 HamiltonianPy/lattice/lattice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a074610..0ce4bef 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -439,9 +439,10 @@ class Lattice:
                 scope=self._guess_scope(radius), no_inversion=False
             )
             dists = cdist(sites, self._points)
-            self._all_distances = np.unique(
-                np.rint(dists[dists <= radius] * _ZOOM)
-            ) / _ZOOM
+            dists = np.sort(dists[dists <= radius])
+            # Float point error should not split one distance into two
+            distinct = np.insert(np.diff(dists) > _VIEW_AS_ZERO, 0, True)
+            self._all_distances = np.rint(dists[distinct] * _ZOOM) / _ZOOM
         return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
-- 
2.43.0


From a0a98f932ab97a191921b45c04ee50957f2a8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 08/23] fix: enlarge the searched radius in steps of one
 lattice plane

---
 HamiltonianPy/lattice/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 0ce4bef..a2d7c39 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -434,7 +434,7 @@ class Lattice:
         radius = self._all_distances[-1]
         while len(self._all_distances) <= nth:
             # All distances not larger than `radius` are found in this scope
-            radius += np.min(np.linalg.norm(self._vectors, axis=-1))
+            radius += 2 * np.pi / np.max(np.linalg.norm(self._bs, axis=-1))
             sites = self._sites_factory(
                 scope=self._guess_scope(radius), no_inversion=False
             )
-- 
2.43.0


From 34fa27c47958131b10e3b768b214ffe6839a3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 09/23] fix: do not lose a point of a k-path segment to
 rounding

---
 HamiltonianPy/lattice/lattice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a2d7c39..a583696 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -581,7 +581,11 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    # The tolerance prevents a ratio that is an integer up to rounding errors
+    # from losing one point, in particular the shortest segment.
+    sampling_nums = [
+        int(min_num * length / min_length + 1E-6) for length in lengths
+    ]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From e7ab75ae7fa8d69dc0a85fa49bcba6886cab1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 10/23] fix: make the polygon module importable

---
 HamiltonianPy/polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..2e3709d 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
@@ -173,7 +174,7 @@ class Polygon:
 
 
 if __name__ == "__main__":
-    from lattice import TRIANGLE_CELL_KS, TRIANGLE_CELL_BS
+    from HamiltonianPy.lattice import TRIANGLE_CELL_KS, TRIANGLE_CELL_BS
 
     BZBoundary = TRIANGLE_CELL_KS[[*range(6), 0]]
     vertices = TRIANGLE_CELL_KS
-- 
2.43.0


From 3add46948fe2598ad5bb5ef44964c1db3e262755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 11/23] fix: points on the extension of a vertical edge are
 outside a polygon

---
 HamiltonianPy/polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 2e3709d..47f7c59 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,9 +145,11 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
-                x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                # Both coordinates matter: all points on the line that
+                # contains a vertical edge have the same x
+                lower = np.minimum(p0, p1) - tol
+                upper = np.maximum(p0, p1) + tol
+                if np.all(lower <= point) and np.all(point <= upper):
                     return Location.BOUNDARY
                 else:
                     return Location.OUTSIDE
-- 
2.43.0


From 911548386894184db7cba737a17094751fc31b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 12/23] fix: exact integer arithmetic for permutations and
 combinations

---
 HamiltonianPy/tools/PandC.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..1b3a58e 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,9 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        # n = 0 implies k = 0: there is exactly one empty combination
+        if n == 0:
+            return 1
+        return factorial(n + k - 1) // (factorial(k) * factorial(n - 1))
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // (factorial(k) * factorial(n - k))
-- 
2.43.0


From 6b4e456c2898c05a34e24691df327d7847c32648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 13/23] fix: restore the number of mkl threads on leaving
 RunTimeEnv

---
 HamiltonianPy/tools/runtimeenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..772e5df 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,6 +63,7 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
+        self._previous_threads_num = mkl.get_max_threads()
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
@@ -84,7 +85,7 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        mkl.set_num_threads(self._previous_threads_num)
 
         if self._rd:
             print("=" * 80)
-- 
2.43.0


From 2b1e9b2426705db2b8d4c47de349b9b211219712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 14/23] fix: keep the log of a RunTimeEnv entered within the
 same second

---
 HamiltonianPy/tools/runtimeenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 772e5df..53bd760 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -68,7 +68,7 @@ class RunTimeEnv:
 
         if self._rd:
             file_name = "Log {0}.txt".format(strftime("%Y-%m-%d %H-%M-%S"))
-            fp = open(self._path / file_name, 'w', buffering=1)
+            fp = open(self._path / file_name, 'a', buffering=1)
             self._stdout = sys.stdout
             sys.stdout = self._fp = fp
 
-- 
2.43.0


From 3d85f9a27c4fdb95263fe74ff35280be66424c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 15/23] fix: save the figure inside the requested folder

---
 HamiltonianPy/tools/Draw2DLattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..226dd9e 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -176,7 +176,7 @@ def show(
                 name = "kagome.pdf"
             else:
                 name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
+        fig.savefig(Path(path) / name, dpi=200)
     plt.close("all")
 
 
-- 
2.43.0


From d582c915314fb109ba6765cbffe021bb2cca8a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 16/23] fix: reject hexadecimal colors with signs, spaces or
 underscores

---
 HamiltonianPy/tools/colorprint.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/HamiltonianPy/tools/colorprint.py b/HamiltonianPy/tools/colorprint.py
index 52f7ccb..7e47920 100644
--- a/HamiltonianPy/tools/colorprint.py
+++ b/HamiltonianPy/tools/colorprint.py
@@ -11,6 +11,10 @@ __all__ = [
     "color_demo",
 ]
 
+
+from string import hexdigits
+
+
 COLOR_NAMES_STD_LONG = (
     "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"
 )
@@ -109,6 +113,8 @@ def _color_ctrl_seq_24bits(color=None, fg=True):
             )
     elif isinstance(color, str):
         if color.startswith('#') and len(color) == 7:
+            if not set(color[1:]) <= set(hexdigits):
+                raise ValueError("Invalid hexadecimal color.")
             r = int(color[1:3], base=16)
             g = int(color[3:5], base=16)
             b = int(color[5:7], base=16)
-- 
2.43.0


From 1b741b5c00a61ed596960a62b802aa4ff50372fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 17/23] fix: Bond: endpoints given as unsigned or narrow
 integers

---
 HamiltonianPy/bond.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 7d38784..4ca5ab8 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -104,6 +104,11 @@ class Bond:
         assert p0.shape in ((1, ), (2, ), (3, )), "Invalid shape"
         assert p1.shape == p0.shape, "Shape does not match"
 
+        # Differences of unsigned or narrow integers would wrap around
+        p0, p1 = [
+            p.astype(np.int64) if p.dtype.kind in "iu" else p for p in (p0, p1)
+        ]
+
         self._p0 = p0
         self._p1 = p1
         self._dim = p0.shape[0]
-- 
2.43.0


From ef55950721ac14a15b0fb9d7cc4da4d2a4a2e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 18/23] fix: Line2D: points given as unsigned or narrow
 integers

---
 HamiltonianPy/line2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/HamiltonianPy/line2d.py b/HamiltonianPy/line2d.py
index 4b8f74c..26be825 100644
--- a/HamiltonianPy/line2d.py
+++ b/HamiltonianPy/line2d.py
@@ -83,6 +83,11 @@ class Line2D:
         assert p0.shape == (2, )
         assert p1.shape == (2, )
 
+        # Differences of unsigned or narrow integers would wrap around
+        p0, p1 = [
+            p.astype(np.int64) if p.dtype.kind in "iu" else p for p in (p0, p1)
+        ]
+
         dr = p1 - p0
         if np.all(np.abs(dr) <= tol):
             raise ValueError("The given `p0` and `p1`are identical!")
-- 
2.43.0


From a97bd3c5d4aa8c96fbb9e0df5c98c0710c47dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 19/23] fix: KPath: anchors given as unsigned or narrow
 integers

---
 HamiltonianPy/lattice/lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a583696..3b83b0f 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -573,6 +573,9 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
 
     point_num = len(points)
     points = np.concatenate((points, points), axis=0)
+    # Differences of unsigned or narrow integers would wrap around
+    if points.dtype.kind in "iu":
+        points = points.astype(np.int64)
     end = (point_num + 1) if loop else point_num
     dRs = points[1:end] - points[0:end-1]
     lengths = np.linalg.norm(dRs, axis=-1)
-- 
2.43.0


From f82335e81ab0a8bf930475759cb8e3818da1dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 20/23] fix: Bond: polar angle between far-away integer
 endpoints

---
 HamiltonianPy/bond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 4ca5ab8..5c52a6f 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -237,7 +237,7 @@ class Bond:
                 theta = np.arctan2(dr[1], dr[0])
             else:
                 x, y, z = dr
-                alpha = np.arctan2(np.sqrt(x**2+y**2), z)
+                alpha = np.arctan2(np.hypot(x, y), z)
                 beta = np.arctan2(y, x)
                 theta = np.array([alpha, beta])
 
-- 
2.43.0


From 6158d616bc4d2d13976c07ba2adc1b1605e9a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 21/23] fix: Polygon: points on an edge in line with the
 previous one

---
 HamiltonianPy/polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 47f7c59..d2b7757 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -138,6 +138,7 @@ class Polygon:
 
         num = self._vertices_num
         vertices = self._vertices
+        on_extension = False
         for i in range(num):
             p0 = vertices[i]
             p1 = vertices[(i + 1) % num]
@@ -152,10 +153,11 @@ class Polygon:
                 if np.all(lower <= point) and np.all(point <= upper):
                     return Location.BOUNDARY
                 else:
-                    return Location.OUTSIDE
-            if not (location0 is location1):
+                    # The next edges may be on the same line
+                    on_extension = True
+            elif not (location0 is location1):
                 return Location.OUTSIDE
-        return Location.INSIDE
+        return Location.OUTSIDE if on_extension else Location.INSIDE
 
     def ShowLocationRelation(self, point):
         """
-- 
2.43.0


From 8ab6b5f8a8ee6e87835767f80d9143e45f3bf365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 22/23] fix: Lattice: points or vectors given as unsigned or
 narrow integers

---
 HamiltonianPy/lattice/lattice.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 3b83b0f..51b2d23 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -98,6 +98,12 @@ class Lattice:
         assert isinstance(points, np.ndarray) and points.ndim == 2
         assert isinstance(vectors, np.ndarray) and vectors.ndim == 2
 
+        # Arithmetic with unsigned or narrow integers would wrap around
+        points, vectors = [
+            array.astype(np.int64) if array.dtype.kind in "iu" else array
+            for array in (points, vectors)
+        ]
+
         point_num, space_dim = points.shape
         trans_dim, tmp = vectors.shape
         if space_dim > 3:
-- 
2.43.0


From 0f04876a193f769143cb4440aebf75de19c11919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 23/23] fix: QuantumAverages: states given as booleans or
 narrow integers

---
 HamiltonianPy/averages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HamiltonianPy/averages.py b/HamiltonianPy/averages.py
index 7af2d72..c4f1496 100644
--- a/HamiltonianPy/averages.py
+++ b/HamiltonianPy/averages.py
@@ -45,6 +45,9 @@ def QuantumAverages(ket, operator):
         The corresponding quantum-mechanical average.
     """
 
+    # Products of booleans or narrow integers would not be what they should
+    if ket.dtype.kind in "biu":
+        ket = ket.astype(np.float64)
     return np.vdot(ket, operator.dot(ket)) / np.vdot(ket, ket)
 
 
-- 
2.43.0

