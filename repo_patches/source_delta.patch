From a5b49ccff60a100a1829f2424acaad5d7f32068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:38 +0000
Subject: [PATCH 01/60] fix: PolygonBoundaryXZ counted vertices twice and
 ignored steep segments

---
 zoidberg/boundary.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..02e85f2 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -122,18 +122,20 @@ class PolygonBoundaryXZ(object):
             xp_1 = self.xarr[ip]
             zp_1 = self.zarr[ip]
 
-            # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # Does this segment cross the line x = x_0?
+            # Each vertex belongs to only one of the two segments which meet
+            # there (half-open interval), so that it is not counted twice.
+            # Segments parallel to the line are never crossed.
+            crosses = (xp_0 > x_0) != (xp_1 > x_0)
+            if not np.any(crosses):
                 continue  # Skip this segment
 
+            # Calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            intersect = np.logical_and(crosses, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From c9acff4ea3613e03b532244fea10c677a8be8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:38 +0000
Subject: [PATCH 02/60] fix: RectangularPoloidalGrid second and mixed
 derivatives are zero

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From 930ccade7a667eb425c4c509408acb2bcc402ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:38 +0000
Subject: [PATCH 03/60] fix: Grid.getPoloidalGrid interpolated fractional y
 indices the wrong way round

---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 1506ce29dc01e9ba3b996b55dd8eb11d00851800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 04/60] fix: RZline.positionPolygon did not follow the straight
 lines between points

---
 zoidberg/rzline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..2ed3cea 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,11 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        # Index of the point before theta, and fraction of the way to the next
+        pos = np.asarray(theta) / dtheta
+        ind = np.floor(pos)
+        rem = pos - ind
+        ind = ind.astype(int) % n
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 9709153ce8b489bc39a76d020c530f86c09246e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 05/60] fix: line_from_points_poly inserted points into the
 wrong edge of a reversed line

---
 zoidberg/rzline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 2ed3cea..d77cd89 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -437,6 +437,9 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
 
     for i in range(3, npoints):
         line = RZline(rvals[:i], zvals[:i], spline_order=spline_order)
+        # The line may have been reversed, so keep the same order here
+        rvals[:i] = line.R
+        zvals[:i] = line.Z
 
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
-- 
2.43.0


From 34cd424cef6efa714209291f558158e5a234d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 06/60] fix: line_from_points_convex_hull and _alphashape
 ignored the RZline options

---
 zoidberg/rzline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index d77cd89..f0005fd 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -551,7 +551,7 @@ def line_from_points_convex_hull(rarray, zarray, **kwargs):
     shape = sg.MultiPoint(rz).convex_hull.exterior
     theta = [shape.project(sg.Point(*p)) for p in rz]
     ind = np.argsort(theta)
-    return RZline(*rz[ind].T)
+    return RZline(*rz[ind].T, **kwargs)
 
 
 def line_from_points_alphashape(rarray, zarray, alpha=2.0, **kwargs):
@@ -571,7 +571,7 @@ def line_from_points_alphashape(rarray, zarray, alpha=2.0, **kwargs):
     shape = shape.exterior
     theta = [shape.project(sg.Point(*p)) for p in rz]
     ind = np.argsort(theta)
-    return RZline(*rz[ind].T)
+    return RZline(*rz[ind].T, **kwargs)
 
 
 def line_from_points(
-- 
2.43.0


From 160db62061951aed82bd442f4c48f9fe46c3bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 07/60] fix: FieldTracerReversible modified the starting
 positions of the caller

---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..cd1ae20 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -242,8 +242,9 @@ class FieldTracerReversible(object):
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
         # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Note: Copied, as these are updated in place
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From 6822e2d020cbf5fe1a33d8ccafbc855d5a5b5f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 08/60] fix: trace_poincare sorted the y_slices array of the
 caller

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index cd1ae20..c3eed91 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -369,7 +369,7 @@ def trace_poincare(
                 )
             )
         # Make sure y_slices is monotonically increasing
-        y_slices.sort()
+        y_slices = np.sort(y_slices)
         # If y_slices is given, then nplot is the number of slices
         nplot = len(y_slices)
     else:
-- 
2.43.0


From 9f58f1c0c797b41f2db6fbfc34f9d19317f50f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 09/60] fix: CachingFieldTracer used one cache file for
 different starting positions

---
 zoidberg/fieldtracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c3eed91..7c2eb5a 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -428,7 +428,9 @@ class CachingFieldTracer:
             s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
             if self.debug:
                 print(s)
-            m.update(s)
+            # Mark the end of each argument, so that values cannot move
+            # from one argument to the next
+            m.update(s + b";")
         return m.hexdigest()
 
     def _guess_shape(self, x_values, y_values):
-- 
2.43.0


From 7776516f177fa952b7a1baf631248453eac687c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 10/60] fix: CachingFieldTracer ignored tracing options when
 looking up the cache

---
 zoidberg/fieldtracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 7c2eb5a..121a761 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -437,7 +437,9 @@ class CachingFieldTracer:
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        # The result also depends on the options, e.g. rtol
+        options = [f"{k}={kwargs[k]!r}" for k in sorted(kwargs)]
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From c14a99e1bfc931edc8caf01a0a099fd1d3c83f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 11/60] fix: CachingFieldTracer failed for positions which are
 not NumPy arrays

---
 zoidberg/fieldtracer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 121a761..a80a603 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -433,8 +433,12 @@ class CachingFieldTracer:
             m.update(s + b";")
         return m.hexdigest()
 
-    def _guess_shape(self, x_values, y_values):
-        return len(y_values), *x_values.shape, 2
+    def _guess_shape(self, x_values, z_values, y_values):
+        # One of x and z can be a scalar
+        shape = np.atleast_1d(x_values).shape
+        if np.size(x_values) == 1:
+            shape = np.atleast_1d(z_values).shape
+        return len(y_values), *shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
         # The result also depends on the options, e.g. rtol
@@ -442,21 +446,17 @@ class CachingFieldTracer:
         fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
-            dat.shape = self._guess_shape(x_values, y_values)
-            return dat
+            return dat.reshape(self._guess_shape(x_values, z_values, y_values))
         except FileNotFoundError:
             if self.debug:
                 print("no cache", fn)
         ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)
         shape = ret.shape
         if self.debug:
-            print(f"saving {ret.shape}, {x_values.shape}")
-        ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
-        assert shape == self._guess_shape(x_values, y_values), (
-            f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
-        )
-        ret.shape = shape
+            print(f"saving {shape}")
+        guess = self._guess_shape(x_values, z_values, y_values)
+        assert shape == guess, f"Estimated {guess} but got {shape}"
+        np.savetxt(fn, ret.reshape(-1, shape[-1]))
         return ret
 
 
-- 
2.43.0


From 972211e6e1b0eddc867b5c858945df97ac59f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 12/60] fix: CachingFieldTracer could read back an incompletely
 written cache file

---
 zoidberg/fieldtracer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index a80a603..d44149c 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,4 +1,5 @@
 import itertools
+import os
 from multiprocessing import Pool
 
 import numpy as np
@@ -456,7 +457,16 @@ class CachingFieldTracer:
             print(f"saving {shape}")
         guess = self._guess_shape(x_values, z_values, y_values)
         assert shape == guess, f"Estimated {guess} but got {shape}"
-        np.savetxt(fn, ret.reshape(-1, shape[-1]))
+        # Only give the file its name once it is complete, so that an interrupted
+        # calculation does not leave behind a cache with missing values
+        tmp = f"{fn}.{os.getpid()}.tmp"
+        try:
+            np.savetxt(tmp, ret.reshape(-1, shape[-1]))
+            os.replace(tmp, fn)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
         return ret
 
 
-- 
2.43.0


From 31c2d024e0ccba6a8acd26e7c2aa7c4036b7a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 13/60] fix: interpolation weights were wrong for negative z
 indices

---
 zoidberg/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..850ddd2 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -449,7 +449,7 @@ def accumulate_interior_stencil(
             continue
 
         x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        z_base = int(np.floor(mapped_z))  # Can be negative
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 35354e8ca67aa9b375ebffb0b84766d7f1cc69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 14/60] fix: c2 was only first order accurate at non-periodic
 ends

---
 zoidberg/diff.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 9d3bd02..7423393 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -16,15 +16,16 @@ def c2(f, axis, periodic=False):
     sl1[axis] = slice(None, -2)
     out[t(sl2)] -= f[t(sl1)]
 
+    def fi(i):
+        sl1[axis] = i
+        return f[t(sl1)]
+
+    # Second order one-sided differences at the ends
     sl2[axis] = 0
-    sl1[axis] = 2
-    out[t(sl2)] = f[t(sl1)]
-    out[t(sl2)] -= f[t(sl2)]
+    out[t(sl2)] = -3 * fi(0) + 4 * fi(1) - fi(2)
 
     sl2[axis] = -1
-    sl1[axis] = -3
-    out[t(sl2)] = f[t(sl2)]
-    out[t(sl2)] -= f[t(sl1)]
+    out[t(sl2)] = 3 * fi(-1) - 4 * fi(-2) + fi(-3)
 
     out /= 2
     return out
-- 
2.43.0


From 1a2b5872e013b99c8e5f7a7975247d22264d9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 15/60] fix: SpectralLine.equallySpaced repeated the first
 point at the end

---
 zoidberg/spectralline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/spectralline.py b/zoidberg/spectralline.py
index 588a7ef..2933726 100644
--- a/zoidberg/spectralline.py
+++ b/zoidberg/spectralline.py
@@ -52,7 +52,7 @@ class SpectralLine:
         return _fft(self.resZ.x, theta)
 
     def equallySpaced(self, num=None):
-        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R))
+        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R), endpoint=False)
         return RZline(self.Rvalue(freq), self.Zvalue(freq))
 
     def plot(self, axis=None, show=True):
-- 
2.43.0


From 0b07653605fb98e3412bce47c2984559c3ffe7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 16/60] fix: smooth failed for edges close to the last point

---
 zoidberg/smooth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..e48ecc3 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -240,9 +240,9 @@ def gen_newr(r, z, splitedlist, bounds, plot):
         dstart = (X[0] - newr[start_index - 1]) ** 2 + (
             Y[0] - newz[start_index - 1]
         ) ** 2
-        dend = (X[-1] - newr[start_index + len(alist)]) ** 2 + (
-            Y[-1] - newz[start_index + len(alist)]
-        ) ** 2
+        # The points are periodic, so the last one is followed by the first
+        next_index = (start_index + len(alist)) % len(newr)
+        dend = (X[-1] - newr[next_index]) ** 2 + (Y[-1] - newz[next_index]) ** 2
         maxfac = 3
         if not (maxfac**-2 < dstart / dend < maxfac**2):
             print(f"dstart / dend is {dstart / dend} - check has failed")
-- 
2.43.0


From 9a01207cab4d3e5cd8b7ca956100a69dfb20ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 17/60] fix: smooth used matplotlib without importing it

---
 zoidberg/smooth.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index e48ecc3..f777033 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -256,6 +256,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
             newr[start_index : start_index + len(alist)] = X
             newz[start_index : start_index + len(alist)] = Y
         if plot:
+            import matplotlib.pyplot as plt
             from matplotlib.collections import LineCollection
 
             S = np.linspace(0, 1, 1000)
@@ -333,9 +334,10 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
-            plt.legend()
-            plt.gca().set_aspect("equal")
-            plt.title("failed")
+            if plot:
+                plt.legend()
+                plt.gca().set_aspect("equal")
+                plt.title("failed")
             alldeb.append(debs)
             return
 
-- 
2.43.0


From e02cb43e49a5b5cd618b6625950edf0f6f9ffdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 18/60] fix: GEQDSK swapped the R and Z directions of the
 poloidal flux

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..647ed61 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1236,8 +1236,8 @@ class GEQDSK(MagneticField):
         print("Major radius: {0} -> {1} m".format(self.rmin, self.rmax))
         print("Height: {0} -> {1} m".format(self.zmin, self.zmax))
 
-        # Poloidal flux
-        self.psi = np.transpose(data["psi"])
+        # Poloidal flux, as a function of (R,Z)
+        self.psi = np.asarray(data["psi"])
         nr, nz = self.psi.shape
 
         # Normalising factors: psi on axis and boundary
-- 
2.43.0


From b938efdeee94eec007ba7698a6dce1759202cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 19/60] fix: GEQDSK added its psi to the attributes of all
 magnetic fields

---
 zoidberg/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 647ed61..99a8593 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,7 +1259,11 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        # Note: Not modifying the attributes, which are shared by all fields
+        self.attributes = {
+            **self.attributes,
+            "psi": lambda x, z, phi: self.psi_func(x, z, grid=False),
+        }
 
         # Create a normalised psi array
 
-- 
2.43.0


From 3a9fdf7767ece299bee43496939aaf44bae9b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 20/60] fix: GEQDSK failed for files without a limiter

---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 99a8593..fe46d83 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1297,7 +1297,7 @@ class GEQDSK(MagneticField):
         # Set boundary
         rlim = data["rlim"]
         zlim = data["zlim"]
-        if len(rlim) > 0:
+        if rlim is not None and len(rlim) > 0:
             # Create a boundary in X-Z with a polygon representation
             self.boundary = boundary.PolygonBoundaryXZ(rlim, zlim)
 
-- 
2.43.0


From da542f7e265e1f0986d75f5e9e9c2700227eeaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 21/60] fix: VMEC field was wrong on the first and last flux
 surfaces

---
 zoidberg/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index fe46d83..e6c2140 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -924,10 +924,11 @@ class VMEC(MagneticField):
     """
 
     def __rolling_average(self, field):
+        # From the half mesh (the first value is not used) to the full mesh
         result = np.zeros_like(field)
-        result[:, 0] = field[:, 1] - 0.5 * field[:, 2]
-        result[:, 2:-2] = 0.5 * (field[:, 2:-2] + field[:, 3:-1])
-        result[:, -1] = 2 * field[:, -2] - field[:, -3]
+        result[:, 0] = 1.5 * field[:, 1] - 0.5 * field[:, 2]
+        result[:, 1:-1] = 0.5 * (field[:, 1:-1] + field[:, 2:])
+        result[:, -1] = 1.5 * field[:, -1] - 0.5 * field[:, -2]
         return result
 
     def cfunct(self, field):
-- 
2.43.0


From 94b1a083fd1c3575971e70991b604329b876cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 22/60] fix: VMEC equilibria were mirrored in the toroidal
 direction

---
 zoidberg/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index e6c2140..b115eaf 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -986,7 +986,8 @@ class VMEC(MagneticField):
         # Read necessary stuff
         with DataFile(vmec_file, write=False) as f:
             self.xm = f["xm"].T
-            self.xn = f["xn"].T
+            # VMEC uses (m u - n v), here (m u + n v) is used
+            self.xn = -f["xn"].T
             ns = int(f["ns"])
             xm_big = np.repeat(self.xm[:, np.newaxis], ns, axis=1)
             xn_big = np.repeat(self.xn[:, np.newaxis], ns, axis=1)
-- 
2.43.0


From b56107b12c023400f2589805dc8aa33d9eb4a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 23/60] fix: VMEC equilibria without stellarator symmetry

---
 zoidberg/field.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index b115eaf..fbac91c 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1003,10 +1003,12 @@ class VMEC(MagneticField):
                 iasym = 0
 
             if iasym:
-                rumnc = -f["rmns"].T * xm_big
-                rvmnc = -f["rmns"].T * xn_big
-                zumns = f["zmnc"].T * xm_big
-                zvmns = f["zmnc"].T * xn_big
+                rumnc = f["rmns"].T * xm_big
+                rvmnc = f["rmns"].T * xn_big
+                zumns = -f["zmnc"].T * xm_big
+                zvmns = -f["zmnc"].T * xn_big
+                bsupumns = self.__rolling_average(f["bsupumns"].T).T
+                bsupvmns = self.__rolling_average(f["bsupvmns"].T).T
 
             bsupumnc = self.__rolling_average(f["bsupumnc"].T).T
             bsupvmnc = self.__rolling_average(f["bsupvmnc"].T).T
@@ -1035,7 +1037,9 @@ class VMEC(MagneticField):
             dzdu = self.cfunct(zumnc.T)
             dzdv = self.cfunct(zvmnc.T)
             if iasym:
-                self.r_stz = self.r_stz + self.sfunct(f["rmnc"])
+                bu = bu + self.sfunct(bsupumns)
+                bv = bv + self.sfunct(bsupvmns)
+                self.r_stz = self.r_stz + self.sfunct(f["rmns"])
                 drdu = drdu + self.cfunct(rumnc.T)
                 drdv = drdv + self.cfunct(rvmnc.T)
                 self.z_stz = self.z_stz + self.cfunct(f["zmnc"])
-- 
2.43.0


From f58cd43276a52eed2f48ecc6d609a4e96b605f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:09 +0000
Subject: [PATCH 24/60] fix: default vertical range of the W7X fields was up to
 35 m

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index fbac91c..63157b6 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1346,7 +1346,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1829,7 +1829,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From 1d631eaac4880d2ffd4e3a754e1eb0e25725ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:09 +0000
Subject: [PATCH 25/60] fix: W7X_VMEC could not be created

---
 zoidberg/field.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 63157b6..ee6fa6c 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1869,23 +1869,20 @@ class W7X_VMEC(MagneticField):
 
         vmec = Client("http://esb.ipp-hgw.mpg.de:8280/services/vmec_v5?wsdl")
 
+        shape = r.shape
         pos = vmec.types.Points3D()
 
         # x in Cartesian (real-space)
-        pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
-        )
+        pos.x1 = np.ndarray.flatten(r * np.cos(phi))
         # y in Cartesian (real-space)
-        pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
-        )
+        pos.x2 = np.ndarray.flatten(r * np.sin(phi))
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), shape)
+        By = np.ndarray.reshape(np.asarray(b.field.x2), shape)
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), shape)
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From e4770af72fb3d6b5ae1936ce23e2a43deed9a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 26/60] fix: FusionSCTracer ignored rtol

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index d44149c..323ef41 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -974,7 +974,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From e8f243f4489c0a25ece8e93b52c84d2a6b1a6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 27/60] fix: get_metric modified the metric stored in the grid

---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..16de5db 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -432,7 +432,8 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Note: Copied, as the y components are modified and the grid keeps its metric
+    metric = {k: np.array(v) for k, v in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From f3963c6303261a72d73c0c10868c0b2f5e88df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 28/60] fix: dy did not account for the periodicity in y at the
 ends

---
 zoidberg/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..d8d4b7b 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -189,8 +189,10 @@ class Grid(object):
         ny = self.ycoords.size
         if ny == 1:
             dy = np.array([self.Ly])
+        elif self.yperiodic:
+            dy = np.gradient(ycoords)[ny : (2 * ny)]
         else:
-            dy = np.gradient(ycoords[ny : (2 * ny)])
+            dy = np.gradient(self.ycoords)
 
         dy3d = np.zeros(self.shape)
         dy3d[...] = dy[None, :, None]
-- 
2.43.0


From b5413c54c19cbf6537a6372660e47c78ee66ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 29/60] fix: smoothing of the inner boundary in grid_elliptic
 was shifted by one point

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 95439c8..480cf06 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -829,7 +829,7 @@ def grid_elliptic(
         xnew = np.empty_like(x)
         xnew[0] = x[0]
         for i in range(len(x) - 1):
-            xnew[i + 1] = xnew[i] + dxn[i]
+            xnew[i + 1] = xnew[i] + dxn[i + 1]
         return xnew % (np.pi * 2)
 
     if (nx > restrict_size) or (nz > restrict_size):
-- 
2.43.0


From 51796a1a5940c016ace9d86d2b383fe334a799c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 30/60] fix: sub-cell samples in make_maps were not distributed
 over the cell

---
 zoidberg/zoidberg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 16de5db..bfbae10 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -282,9 +282,16 @@ def make_maps(
                 xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
 
                 for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                    # Starting location of this sample
+                    sample = (xinds + xo, zinds + zo)
+                    if isinstance(pol, RectangularPoloidalGrid):
+                        # R,Z do not wrap around in Z
+                        Rsample, Zsample = pol.getCoordinate(*sample)
+                    else:
+                        Rsample, Zsample = Rinterp(sample), Zinterp(sample)
                     coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
+                        Rsample,
+                        Zsample,
                         [ycoord, y_slice],
                         rtol=rtol,
                     )[1, ...]
-- 
2.43.0


From 5f8bbf92bb595c2e8bb74597a0bf88be98c17cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:21 +0000
Subject: [PATCH 31/60] fix: sub-cell maps of the first parallel slice were not
 set for nslice > 1

---
 zoidberg/zoidberg.py | 122 +++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index bfbae10..bb7a866 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,66 +247,66 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    # Starting location of this sample
-                    sample = (xinds + xo, zinds + zo)
-                    if isinstance(pol, RectangularPoloidalGrid):
-                        # R,Z do not wrap around in Z
-                        Rsample, Zsample = pol.getCoordinate(*sample)
-                    else:
-                        Rsample, Zsample = Rinterp(sample), Zinterp(sample)
-                    coord = field_tracer.follow_field_lines(
-                        Rsample,
-                        Zsample,
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        # Starting location of this sample
+                        sample = (xinds + xo, zinds + zo)
+                        if isinstance(pol, RectangularPoloidalGrid):
+                            # R,Z do not wrap around in Z
+                            Rsample, Zsample = pol.getCoordinate(*sample)
+                        else:
+                            Rsample, Zsample = Rinterp(sample), Zinterp(sample)
+                        coord = field_tracer.follow_field_lines(
+                            Rsample,
+                            Zsample,
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From abe7a0846a173ad0f72efad58e592c5195934488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:21 +0000
Subject: [PATCH 32/60] fix: parallel slice metrics at the ends of grids which
 are not periodic in y

---
 zoidberg/zoidberg.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index bb7a866..ae5067c 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -682,6 +682,11 @@ class MapWriter:
                     assert np.isclose(np.mean(np.diff(pypar)), meandy), (
                         f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
                     )
+            else:
+                # Field lines stop at the ends of the domain
+                pypar = np.array(
+                    [self.grid.getPoloidalGrid(j + offset)[1] for j in range(ny)]
+                )
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
             par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
@@ -693,6 +698,10 @@ class MapWriter:
             )
 
             par_metric, par_BJg = get_metric(par_grid, self.field)
+            if not yperiodic:
+                # Spacing of the closest slice in the domain
+                yinds = np.clip(np.arange(ny) + offset, 0, ny - 1)
+                par_metric["dy"] = self.grid.metric()["dy"][:, yinds, :]
 
             # Check flux conservation
             if self.BJg is not None and self.BJg.shape[0] > 4:
-- 
2.43.0


From 5531675383a99279be88ed93df0df225ffe18108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:21 +0000
Subject: [PATCH 33/60] fix: J and Ly of the first and last slice of
 non-periodic grids

---
 zoidberg/zoidberg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index ae5067c..e8ea812 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -340,7 +340,11 @@ def make_maps(
 
             for direction in [-1, +1]:
                 # Get this poloidal grid
-                _, ycoordnext = grid.getPoloidalGrid(j + direction)
+                pol_next, ycoordnext = grid.getPoloidalGrid(j + direction)
+                if pol_next is None:
+                    # End of the domain. This is the edge of the cell,
+                    # rather than the middle of the next cell
+                    ycoordnext = 2 * ycoordnext - ycoord
 
                 # Get the next poloidal grid
                 pol_slice = []
-- 
2.43.0


From 20145c20dc9fb42fca53dbc52cd0d81beca4b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:21 +0000
Subject: [PATCH 34/60] fix: cell edges at the ends of grids which are not
 periodic in y

---
 zoidberg/grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index d8d4b7b..d9af2c4 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -101,9 +101,14 @@ class Grid(object):
 
         if abs(yindexint - yindex) > 1e-6:
             floor = np.floor(yindex)
-            _, yup = self.getPoloidalGrid(floor + 1)
-            _, ydown = self.getPoloidalGrid(floor)
+            polup, yup = self.getPoloidalGrid(floor + 1)
+            poldown, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
+            # The end of the domain is half way to the missing slice
+            if polup is None and poldown is not None:
+                yup = 2 * yup - ydown
+            elif poldown is None and polup is not None:
+                ydown = 2 * ydown - yup
             return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
-- 
2.43.0


From 4a04c7c1a9ec060ddfaba13f2f235b16adf98935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 35/60] fix: volume of the first and last cells in x was not
 initialised

---
 zoidberg/stencil_dagp_fv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..c64ff5a 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,8 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    # The first and last cells in x have no volume
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From 0a34b2b1d6fa668a2dfba43a125b28b20459156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 36/60] fix: DAGP coefficients of rectangular grids with few
 points in z

---
 zoidberg/stencil_dagp_fv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index c64ff5a..2a80f6b 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -193,8 +193,9 @@ def doit(pols, plot=False, isSlab=False):
     dxR = RZ[:, 1:] - RZ[:, :-1]
     dzR = np.roll(RZ, -1, axis=-1) - np.roll(RZ, 1, axis=-1)
     if Lz is not None:
-        dzR[dzR < -Lz / 2] += Lz
-        dzR[dzR > Lz / 2] -= Lz
+        # The domain is periodic with Lz in Z
+        dzR[1, ..., 0] += Lz
+        dzR[1, ..., -1] += Lz
     dzR = 0.5 * (dzR[:, 1:] + dzR[:, :-1])
 
     log("starting solve")
@@ -249,8 +250,7 @@ def doit(pols, plot=False, isSlab=False):
     dxR = 0.5 * (np.roll(dxR, -1, axis=-1) + dxR)
     dzR = (np.roll(RZ, -1, axis=-1) - RZ)[:, 1:-1]
     if Lz is not None:
-        dzR[dzR < -Lz / 2] += Lz
-        dzR[dzR > Lz / 2] -= Lz
+        dzR[1, ..., -1] += Lz
 
     dxzR = np.array((dxR, dzR)).transpose(2, 3, 4, 1, 0)
     log("solving again")
-- 
2.43.0


From e17b2e4b9dfca4c212c5acfac62f7f266e7fe865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:44 +0000
Subject: [PATCH 37/60] fix: end of domain in y exact, as tracing needs
 monotonic y

Tracing to the end of the domain failed if rounding put the edge of the
cell beyond it
---
 zoidberg/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index d9af2c4..e810d7a 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -106,9 +106,9 @@ class Grid(object):
             fac = yindex - floor
             # The end of the domain is half way to the missing slice
             if polup is None and poldown is not None:
-                yup = 2 * yup - ydown
-            elif poldown is None and polup is not None:
-                ydown = 2 * ydown - yup
+                return None, ydown * (1 - 2 * fac) + yup * 2 * fac
+            if poldown is None and polup is not None:
+                return None, yup * (2 * fac - 1) + ydown * 2 * (1 - fac)
             return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
-- 
2.43.0


From 87865beef8d6d7915780d24666365ffc77b2f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:27 +0000
Subject: [PATCH 38/60] fix: c2 and c4 of integer arrays were rejected or
 truncated

---
 zoidberg/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 7423393..fb72596 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -6,7 +6,7 @@ def c2(f, axis, periodic=False):
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
     sl2 = [slice(None) for _ in f.shape]
-    out = np.empty_like(f)
+    out = np.empty(f.shape, dtype=np.result_type(f, float))
 
     t = tuple
 
@@ -54,7 +54,7 @@ def c4(f, axis, periodic=False):
 
     t = tuple
 
-    out = np.empty_like(f)
+    out = np.empty(f.shape, dtype=np.result_type(f, float))
     slc = [slice(None) for _ in f.shape]
 
     slc[axis] = slice(2, -2)
-- 
2.43.0


From 031ef05f8523c26fe515a8b725935a7443783d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:28 +0000
Subject: [PATCH 39/60] fix: smooth treated edges differently close to the
 first point of the line

---
 zoidberg/smooth.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index f777033..b5375d6 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -28,7 +28,8 @@ def generate_points_tosmooth(bounds, outliers, length):
         return []
     todel = set()
     for dup in outliers:
-        todel.update([x for x in range(dup - bounds, dup + bounds + 1) if x < length])
+        # The points are periodic, so the range can continue across the ends
+        todel.update([x % length for x in range(dup - bounds, dup + bounds + 1)])
     ###
     todel = sorted(list(todel))
     splitedlist = []
@@ -40,6 +41,9 @@ def generate_points_tosmooth(bounds, outliers, length):
             first = index + 1
         last = value
     splitedlist.append(todel[first:])
+    if len(splitedlist) > 1 and todel[0] == 0 and todel[-1] == length - 1:
+        # Join the ranges on both sides of the first point
+        splitedlist[0] = [x - length for x in splitedlist.pop()] + splitedlist[0]
     return splitedlist
 
 
-- 
2.43.0


From 3d098b63780ff841380a6e29e8d5b78524601a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:02 +0000
Subject: [PATCH 40/60] fix: upscale did not interpolate linearly between the
 ends of field lines

---
 zoidberg/zoidberg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index e8ea812..1502cbf 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -1032,11 +1032,11 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
     )
 
     # Upscale the field
-    hires_field = map_coordinates(field_aligned, hires_points)
+    hires_field = map_coordinates(field_aligned, hires_points, order=1)
 
     # Linearly interpolate the x, z coordinates of the field lines
-    hires_x = map_coordinates(x_start_end, hires_points)
-    hires_z = map_coordinates(z_start_end, hires_points)
+    hires_x = map_coordinates(x_start_end, hires_points, order=1)
+    hires_z = map_coordinates(z_start_end, hires_points, order=1)
 
     def twizzle(array):
         """Transpose and reshape the output of map_coordinates to
-- 
2.43.0


From 72ee0dc7c06410daeea02c78fa58475a2f81bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:02 +0000
Subject: [PATCH 41/60] fix: upscale truncated integer fields

---
 zoidberg/zoidberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 1502cbf..8c43cca 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -1010,7 +1010,7 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
     end_points = np.array([xt_prime, yup_3d, zt_prime])
 
     # Interpolation of the field at the end points
-    field_prime = map_coordinates(field, end_points)
+    field_prime = map_coordinates(field, end_points, output=float)
 
     # This is a 4D array where the first dimension is the start/end of
     # the field line
-- 
2.43.0


From 9542f582fd4a264bee1020c5c8e9ec0f710fa165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:47 +0000
Subject: [PATCH 42/60] fix: trace_poincare failed for slices at both ends of
 the period

---
 zoidberg/fieldtracer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 323ef41..b98a674 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -384,14 +384,18 @@ def trace_poincare(
     y_values = y_slices[:]
     for n in np.arange(1, revs):
         y_values = np.append(y_values, n * yperiod + y_values[:nplot])
+    if yperiod > 0:
+        # The last slice can be at the same place as the first one of the
+        # next revolution, up to rounding errors
+        y_values = np.maximum.accumulate(y_values)
 
     nover = int(nover)  # Over-sample
     y_values_over = np.zeros((nplot * revs * nover - (nover - 1)))
     y_values_over[::nover] = y_values
     for i in range(1, nover):
-        y_values_over[i::nover] = (float(i) / float(nover)) * y_values[1:] + (
-            float(nover - i) / float(nover)
-        ) * y_values[:-1]
+        y_values_over[i::nover] = y_values[:-1] + (float(i) / float(nover)) * (
+            y_values[1:] - y_values[:-1]
+        )
 
     # Starting location
     xpos = np.asarray(xpos)
-- 
2.43.0


From b1346a48efa087a1e6c55f558bc96d2be3249afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:03 +0000
Subject: [PATCH 43/60] fix: EMC3FieldTracer failed for a single position

The index of a zero-dimensional array is the empty tuple.
---
 zoidberg/fieldtracer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b98a674..c655a28 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -787,8 +787,6 @@ class EMC3FieldTracer(FieldTracer):
         for i in itertools.product(*[range(x) for x in x_values.shape]):
             rz = np.array((x_values[i], z_values[i]))
             ab, ij, zid = self.rz_to_ab(rz, meshes[0], ij, zid)
-            if x_values.shape == ():
-                i = None
             out[(0, *i)] = rz
             ij1, zid1 = ij, zid
             cache = {0: (ab, ij, zid)}
-- 
2.43.0


From 1a376e5a81bf87dcbda0ad179cce2136863dc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:32 +0000
Subject: [PATCH 44/60] fix: EMC3FieldTracer ignored the periodic boundary

The position in the mesh after crossing the end of the period was
computed in the wrong direction, and then replaced by the initial one.
---
 zoidberg/fieldtracer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c655a28..64c659c 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -788,20 +788,22 @@ class EMC3FieldTracer(FieldTracer):
             rz = np.array((x_values[i], z_values[i]))
             ab, ij, zid = self.rz_to_ab(rz, meshes[0], ij, zid)
             out[(0, *i)] = rz
-            ij1, zid1 = ij, zid
             cache = {0: (ab, ij, zid)}
             for j in range(1, len(meshes)):
                 perBC = meshes[j][zid].perBC - meshes[0][zid].perBC
                 if perBC not in cache:
-                    first, last = (0, 1) if perBC > 0 else (1, 0)
+                    # perBC > 0: leave through the first slice, and continue
+                    # at the last one
+                    leave, enter = (0, 1) if perBC > 0 else (1, 0)
+                    ab1, ij1, zid1 = ab, ij, zid
                     for _ in range(abs(perBC)):
-                        rz1 = self._ab_to_rz(ab, self.firstlast[last][zid1].grid, ij1)
-                        ab, ij1, zid1 = self.rz_to_ab(
-                            rz1, self.firstlast[first], ij1, zid1
+                        rz1 = self._ab_to_rz(ab1, self.firstlast[leave][zid1].grid, ij1)
+                        ab1, ij1, zid1 = self.rz_to_ab(
+                            rz1, self.firstlast[enter], ij1, zid1
                         )
-                    cache[perBC] = self.rz_to_ab(rz, meshes[0], ij, zid)
-                ab, ij1, zid1 = cache[perBC]
-                out[(j, *i)] = self._ab_to_rz(ab, meshes[j][zid1].grid, ij1)
+                    cache[perBC] = ab1, ij1, zid1
+                ab1, ij1, zid1 = cache[perBC]
+                out[(j, *i)] = self._ab_to_rz(ab1, meshes[j][zid1].grid, ij1)
         return out
 
     def _rz_to_ab(self, rz, grid, ij):
-- 
2.43.0


From f553682177a8f9ce294aaea7a69d0519f7df8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:04 +0000
Subject: [PATCH 45/60] fix: EMC3FieldTracer used a wrong cell for positions
 next to the mesh

The index of the nearest point was used as index of a cell, of which there
are fewer.
---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 64c659c..ab29343 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -882,9 +882,10 @@ class EMC3FieldTracer(FieldTracer):
                 l2 = (rz[0] - mesh.r) ** 2 + (rz[1] - mesh.z) ** 2
                 ij = np.argmin(l2)
                 if l2.flat[ij] < mind:
+                    # Index of a cell next to this point
                     nr, nz = mesh.r.shape
-                    if ij >= (nr - 1) * nz:
-                        ij -= nz
+                    i, j = np.unravel_index(ij, (nr, nz))
+                    ij = min(i, nr - 2) * (nz - 1) + min(j, nz - 2)
                     return self._rz_to_ab(rz, mesh.grid, ij), ij, mesh.zid
 
         import matplotlib.colors as mcolors
-- 
2.43.0


From 5cbe2dad0be77b5fbcbb5dd75dff6d7bec59a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:04 +0000
Subject: [PATCH 46/60] fix: EMC3 fields are in cylindrical coordinates

Without Rfunc the metric was computed as for Cartesian coordinates.
---
 zoidberg/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index ee6fa6c..c2f2679 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1930,6 +1930,9 @@ class EMC3(MagneticField):
     def Bxyzfunc(self, x, z, phi):
         raise NotImplementedError("Use maybe EMC3 tracer?")
 
+    def Rfunc(self, x, z, phi):
+        return x
+
     def Bmag(self, x, z, phi):
         vals = self.ds.emc3.evaluate_at_rpz(x, phi, z, "Bmean", delta_phi=1e-6)[
             "Bmean"
-- 
2.43.0


From 80f92e01e41178327b08cb44350f252cc8699f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:44 +0000
Subject: [PATCH 47/60] fix: plot_poincare failed for more than six slices

---
 zoidberg/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 8ab3afd..f55ee58 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -75,7 +75,7 @@ def plot_poincare(
 
     colours = ["k", "b", "r", "g", "c", "m"]
     if nplot > len(colours):
-        colours += colours * np.floor(nplot / len(colours))
+        colours += colours * (nplot // len(colours))
 
     fig, ax = plt.subplots(1, 1)
 
-- 
2.43.0


From 30ec8d00ec3c1097f7a30111bd35639b3343c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:44 +0000
Subject: [PATCH 48/60] fix: plot_poincare failed for two-dimensional starting
 positions

---
 zoidberg/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index f55ee58..29ed34f 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -80,8 +80,8 @@ def plot_poincare(
     fig, ax = plt.subplots(1, 1)
 
     for index in range(nplot):
-        r = result[:, index, ..., 0]
-        z = result[:, index, ..., 1]
+        r = result[:, index, ..., 0].reshape(len(result), -1)
+        z = result[:, index, ..., 1].reshape(len(result), -1)
         style = {
             "marker": ".",
             "color": colours[index],
-- 
2.43.0


From c8ca22975002d6d478e5568096e623e080e0559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:44 +0000
Subject: [PATCH 49/60] fix: clicking on an interactive Poincare plot failed

The tracer returns [y, position, x/z] also for a single position.
---
 zoidberg/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 29ed34f..329fb75 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -114,12 +114,12 @@ def plot_poincare(
             # Right mouse
             if event.button == 3:
                 x_, z_ = overplot.get_data()
-                x_ = np.append(x_, result[:, 0])
-                z_ = np.append(z_, result[:, 1])
+                x_ = np.append(x_, result[:, 0, 0])
+                z_ = np.append(z_, result[:, 0, 1])
             # Left mouse
             else:
-                x_ = result[:, 0]
-                z_ = result[:, 1]
+                x_ = result[:, 0, 0]
+                z_ = result[:, 0, 1]
 
         overplot.set_data(x_, z_)
         ax.relim()
-- 
2.43.0


From 5b58d8ebbeb944d321c322ac0088b48ca8bda9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:44 +0000
Subject: [PATCH 50/60] fix: plot_3d_field_line failed for several starting
 positions

---
 zoidberg/plot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 329fb75..7b58343 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -184,16 +184,17 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     # and we also need to transpose for reasons
     phivals_hires_mod = phivals_hires_mod.reshape((cycles, y_res)).T
     # Same for the result, but only swap first and second indices
-    result_hires_mod = result_hires.reshape((cycles, y_res, 2)).transpose(1, 0, 2)
+    result_hires_mod = result_hires.reshape((cycles, y_res, -1, 2)).swapaxes(0, 1)
 
     fig = plt.figure()
     ax = fig.add_subplot(projection="3d")
     for n in range(cycles):
-        ax.plot(
-            result_hires_mod[:, n, 0],
-            result_hires_mod[:, n, 1],
-            phivals_hires_mod[:, n],
-        )
+        for i in range(result_hires_mod.shape[2]):
+            ax.plot(
+                result_hires_mod[:, n, i, 0],
+                result_hires_mod[:, n, i, 1],
+                phivals_hires_mod[:, n],
+            )
 
     plt.show()
 
-- 
2.43.0


From 0b0dd83613af93846a0fd7073e25a80a0d2d1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:37 +0000
Subject: [PATCH 51/60] fix: plot_3d_field_line put the start of some cycles at
 the end of the period

The remainder of a multiple of the period can be the period, by rounding.
---
 zoidberg/plot.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 7b58343..a90c83c 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -178,12 +178,10 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     field_tracer = fieldtracer.FieldTracer(magnetic_field)
     result_hires = field_tracer.follow_field_lines(xpos, zpos, phivals_hires)
 
-    # Get phivals_hires into [0,yperiod]
-    phivals_hires_mod = np.remainder(phivals_hires, yperiod)
+    # Each cycle starts again from zero
+    phivals_hires_mod = phivals_hires[:y_res]
     # There are cycles sets of field lines y_res points long each
-    # and we also need to transpose for reasons
-    phivals_hires_mod = phivals_hires_mod.reshape((cycles, y_res)).T
-    # Same for the result, but only swap first and second indices
+    # and we also need to swap first and second indices
     result_hires_mod = result_hires.reshape((cycles, y_res, -1, 2)).swapaxes(0, 1)
 
     fig = plt.figure()
@@ -193,7 +191,7 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
             ax.plot(
                 result_hires_mod[:, n, i, 0],
                 result_hires_mod[:, n, i, 1],
-                phivals_hires_mod[:, n],
+                phivals_hires_mod,
             )
 
     plt.show()
-- 
2.43.0


From 937a999157ba2f44f5456f4d2a3794498be65d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:37 +0000
Subject: [PATCH 52/60] fix: plot_streamlines used attributes which grids and
 fields do not have

---
 zoidberg/plot.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index a90c83c..42374fc 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -226,20 +226,29 @@ def plot_streamlines(grid, magnetic_field, y_slice=0, width=None, **kwargs):
         return
 
     fig, ax = plt.subplots(1, 1)
-    full_slice = np.s_[:, y_slice, :]
+
+    def get_field(yindex):
+        # Components of B in the poloidal plane
+        pol, y = grid.getPoloidalGrid(yindex)
+        bx = magnetic_field.Bxfunc(pol.R, pol.Z, y)
+        bz = magnetic_field.Bzfunc(pol.R, pol.Z, y)
+        return bx + 0 * pol.R, bz + 0 * pol.R
+
+    pol, _ = grid.getPoloidalGrid(y_slice)
+    bx, bz = get_field(y_slice)
 
     if width is not None:
         # Get the B field magnitude in the poloidal plane
-        bxz_mag = np.sqrt(magnetic_field.b_mag**2 - magnetic_field.by**2)
-        linewidth = width * (bxz_mag[full_slice] / bxz_mag.max()).T
+        bxz_max = max(np.max(np.hypot(*get_field(i))) for i in range(grid.shape[1]))
+        linewidth = width * (np.hypot(bx, bz) / bxz_max).T
     else:
         linewidth = 1
 
     ax.streamplot(
-        grid.xarray,
-        grid.zarray,
-        magnetic_field.bx[full_slice].T,
-        magnetic_field.bz[full_slice].T,
+        pol.R[:, 0],
+        pol.Z[0, :],
+        bx.T,
+        bz.T,
         linewidth=linewidth,
         **kwargs,
     )
-- 
2.43.0


From 2bd4d3ec88d69be0efd60baf490cbb95f6ea8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 53/60] fix: c2 and c4 of small and unsigned integers
 overflowed

---
 zoidberg/diff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index fb72596..c417c10 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -2,6 +2,9 @@ import numpy as np
 
 
 def c2(f, axis, periodic=False):
+    # Small or unsigned integers would overflow
+    f = f.astype(np.result_type(f, float), copy=False)
+
     if periodic:
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
@@ -32,6 +35,9 @@ def c2(f, axis, periodic=False):
 
 
 def c4(f, axis, periodic=False):
+    # Small or unsigned integers would overflow
+    f = f.astype(np.result_type(f, float), copy=False)
+
     if periodic:
 
         def fi(i):
-- 
2.43.0


From 763a2607e8ad951f22292f1d10e69f1a80a36d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 54/60] fix: format_time could show 60 seconds

---
 zoidberg/progress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/progress.py b/zoidberg/progress.py
index bed4836..0ce7417 100644
--- a/zoidberg/progress.py
+++ b/zoidberg/progress.py
@@ -85,16 +85,17 @@ def update_progress(progress, barLength=10, ascii=False, **kwargs):
 
 
 def format_time(secs):
+    secs = int(round(secs))
     ret = ""
     out = False
     for name, val in [("m", 60), ("h", 3600), ("d", 60 * 60 * 24)][::-1]:
         if secs >= val:
             out = True
         if out:
-            cur = int(secs // val)
+            cur = secs // val
             ret += f"{cur:02d}{name}"
             secs -= cur * val
-    ret += f"{secs:02.0f}s"
+    ret += f"{secs:02d}s"
     return ret
 
 
-- 
2.43.0


From 2add546d232ef46f0ecb24532c69b7ba3f4b526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 55/60] fix: upscale failed to show its progress with tqdm or
 for one slice

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 8c43cca..d95c923 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -12,12 +12,12 @@ from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
 from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
+from .progress import update_progress
 
 try:
     from tqdm.auto import tqdm
 except ModuleNotFoundError:
     tqdm = None
-    from .progress import update_progress
 
 # PyEVTK might be called pyevtk or evtk, depending on where it was
 # installed from
@@ -1068,6 +1068,6 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
             points, f_slice.flat, grid_points, method="linear", fill_value=0.0
         )
         if not quiet:
-            update_progress(float(k) / float(ny - 1))
+            update_progress((k + 1) / (upscale_factor * ny))
 
     return hires_grid_field
-- 
2.43.0


From 61686d6c6c465c7a5ccbcf77ee653264929a54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 56/60] fix: progress of the second stage of make_maps was
 never shown without tqdm

---
 zoidberg/zoidberg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d95c923..e639997 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -407,8 +407,11 @@ def make_maps(
             J = np.sum(vols, axis=0) / (len(Bs) - 1)
             jacobian[chunk, j, :] = J
 
-        if prog is not None:
-            prog.update()
+        if (not quiet) and (ny > 1):
+            if tqdm:
+                prog.update()
+            else:
+                update_progress((j + 1) / total_work, **kwargs)
 
     if not isinstance(magnetic_field, Slab):
         maps["J"] = jacobian
-- 
2.43.0


From aa37dcf2fc4d6d24fb60332e9f9dd072546f5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:42 +0000
Subject: [PATCH 57/60] fix: plots failed instead of warning when matplotlib is
 not available

---
 zoidberg/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 42374fc..8919c41 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -54,7 +54,7 @@ def plot_poincare(
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     # Get Poincare plot
@@ -164,7 +164,7 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     yperiod = float(yperiod)
@@ -222,7 +222,7 @@ def plot_streamlines(grid, magnetic_field, y_slice=0, width=None, **kwargs):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     fig, ax = plt.subplots(1, 1)
@@ -329,7 +329,7 @@ def plot_forward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
@@ -400,7 +400,7 @@ def plot_backward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
-- 
2.43.0


From d7e47fb728a83e683dcefef63e5cbcf072fe018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:42 +0000
Subject: [PATCH 58/60] fix: plots of maps failed at the ends of non-periodic
 grids

---
 zoidberg/plot.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 8919c41..f982b71 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -339,12 +339,14 @@ def plot_forward_map(grid, maps, yslice=0):
 
     # Plot the points on yslice+1 as 'bx'
     # Note: ravel used here only so multiple labels are not created
-    plt.plot(
-        np.ravel(pol_next.R),
-        np.ravel(pol_next.Z),
-        "bx",
-        label="Grid points on slice {0}".format(yslice + 1),
-    )
+    # (there are none beyond the ends of a non-periodic grid)
+    if pol_next is not None:
+        plt.plot(
+            np.ravel(pol_next.R),
+            np.ravel(pol_next.Z),
+            "bx",
+            label="Grid points on slice {0}".format(yslice + 1),
+        )
 
     # Plot the forward map from yslice to yslice+1 as red 'o'
     forward_R = maps["forward_R"][:, yslice, :]
@@ -410,12 +412,14 @@ def plot_backward_map(grid, maps, yslice=0):
 
     # Plot the points on yslice-1 as 'bx'
     # Note: ravel used here only so multiple labels are not created
-    plt.plot(
-        np.ravel(pol_last.R),
-        np.ravel(pol_last.Z),
-        "bx",
-        label="Grid points on slice {0}".format(yslice - 1),
-    )
+    # (there are none beyond the ends of a non-periodic grid)
+    if pol_last is not None:
+        plt.plot(
+            np.ravel(pol_last.R),
+            np.ravel(pol_last.Z),
+            "bx",
+            label="Grid points on slice {0}".format(yslice - 1),
+        )
 
     # Plot the backward map from yslice to yslice-1 as red 'o'
     backward_R = maps["backward_R"][:, yslice, :]
-- 
2.43.0


From 5e59c4c9ee6c17beb04af837746f29e5366274c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:42 +0000
Subject: [PATCH 59/60] fix: clicks failed in Poincare plots with slices at
 both ends of the period

---
 zoidberg/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index f982b71..548250d 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -133,6 +133,9 @@ def plot_poincare(
         y_values = y_slices[:]
         for n in np.arange(1, revs):
             y_values = np.append(y_values, n * yperiod + y_values[:nplot])
+        if yperiod > 0:
+            # As in trace_poincare: slices at both ends of the period
+            y_values = np.maximum.accumulate(y_values)
 
         fig.canvas.mpl_connect("button_press_event", onclick)
     plt.show()
-- 
2.43.0


From fe766bde1d7bbbe13ce006481fca905cdd6db476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:12 +0000
Subject: [PATCH 60/60] fix: positions after short intervals in y were
 undefined when odeint refused to continue

---
 zoidberg/fieldtracer.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index ab29343..5952485 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -15,6 +15,32 @@ except ImportError:
 from .field import _set_config
 
 
+def _integrate(field_direction, position, y_values, rtol):
+    """Flattened positions at all of the y_values"""
+
+    def integrate(position, y_values):
+        result, info = odeint(
+            field_direction,
+            position,
+            y_values,
+            args=(True,),
+            rtol=rtol,
+            full_output=True,
+        )
+        return result, info["message"] == "Integration successful."
+
+    result, success = integrate(position, y_values)
+    if not success:
+        # odeint can refuse to continue after a short interval, in which
+        # case the remaining values are not set. Start again at each y
+        for i in range(1, len(y_values)):
+            step, success = integrate(result[i - 1], y_values[i - 1 : i + 1])
+            result[i] = step[-1]
+            if not success:
+                break
+    return result
+
+
 class FieldTracer(object):
     """A class for following magnetic field lines
 
@@ -100,9 +126,7 @@ class FieldTracer(object):
         if len(x_values) < 1000:
             position = np.column_stack((x_values, z_values)).flatten()
 
-            result = odeint(
-                self.field_direction, position, y_values, args=(True,), rtol=rtol
-            )
+            result = _integrate(self.field_direction, position, y_values, rtol)
         else:
             # Split into smaller pieces
 
@@ -121,7 +145,7 @@ class FieldTracer(object):
             # Process in chunks. Note: multiprocessing has trouble with closures
             # so fails in Python 2. Python 3 may work
             results = [
-                odeint(self.field_direction, chunk, y_values, args=(True,), rtol=rtol)
+                _integrate(self.field_direction, chunk, y_values, rtol)
                 for chunk in chunks
             ]
 
-- 
2.43.0

