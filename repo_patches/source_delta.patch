From 957cec85c4033b53dca827b975f883f61e68d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 001/142] fix: empty slices select no cells instead of failing
 or wrapping

---
 karta/raster/band.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 7a27a7a..392751b 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -89,6 +89,10 @@ class BandIndexer(object):
         if xstep < 0:
             xstart, xend = xend+1, xstart+1
 
+        # slices that select nothing yield empty results
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
@@ -156,6 +160,10 @@ class BandIndexer(object):
             #if xstep < 0:
             #    xstart, xend = xend+1, xstart+1
 
+        # slices that select nothing leave the bands unchanged
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
-- 
2.43.0


From c415fa6a39fbeac454599170fb3a24a787543334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 002/142] fix: masked writes accept one value per masked cell
 and any scalar

---
 karta/raster/band.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 392751b..2dccd5a 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -34,7 +34,7 @@ The following methods are deprecated:
 
 import blosc
 import numpy as np
-from numbers import Real, Integral
+from numbers import Integral
 from math import ceil
 
 class BandIndexer(object):
@@ -192,6 +192,14 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        value = np.asarray(value)
+        if (mask.ndim == 3) and (value.ndim == 1) and (len(value) == mask.sum()):
+            # one value per masked cell, as returned by self[mask]
+            tmp = self[:,:,:]
+            tmp[mask] = value
+            self[:,:,:] = tmp
+            return
+
         for i, band in enumerate(self.bands):
 
             if mask.ndim == 3:
@@ -200,7 +208,7 @@ class BandIndexer(object):
                 mask_ = mask
 
             tmp = band.getblock(0, 0, *band.size)
-            if isinstance(value, Real) or (value.ndim == 1):
+            if value.ndim < 2:
                 tmp[mask_] = value
             else:
                 tmp[mask_] = value[:,i]
-- 
2.43.0


From fc89ef605b4fda1d912b7b9763fb099126893448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 003/142] fix: vertex_coords fills the last row of vertices

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ea5ba91..2d7fdb3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -314,7 +314,7 @@ class RegularGrid(Grid):
         xcoords = np.empty((ny+1, nx+1))
         ycoords = np.empty((ny+1, nx+1))
         icol = np.arange(0, self.size[1]+1)
-        for i in range(self.size[0]):
+        for i in range(self.size[0]+1):
             xcoords[i,:] = t[0] + icol*t[2] + i*t[4]
             ycoords[i,:] = (t[1] + i*t[3] + icol*t[5])
         return xcoords, ycoords
-- 
2.43.0


From 7c887b47d8b43d6c21b46d58336f59b887c5d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 004/142] fix: grid extent of skewed grids covers every cell

---
 karta/raster/grid.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2d7fdb3..d16720b 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -362,16 +362,11 @@ class RegularGrid(Grid):
         dx, dy = self._transform[2:4]
         sx, sy = self._transform[4:]
 
-        sgn = lambda a: 0 if a==0 else a/abs(a)
-        if sgn(dx) == sgn(sx):
-            x1 = x0 + dx*(nx+n) + sx*(ny+n)
-        else:
-            x1 = x0 + dx*(nx+n) - sx*(ny+n)
-
-        if sgn(dy) == sgn(sy):
-            y1 = y0 + dy*(ny+n) + sy*(nx+n)
-        else:
-            y1 = y0 + dy*(ny+n) - sy*(nx+n)
+        # skewed rows and columns may reach to either side of the origin
+        wx, hx = dx*(nx+n), sx*(ny+n)
+        wy, hy = dy*(ny+n), sy*(nx+n)
+        x0, x1 = (x0 + min(0, wx) + min(0, hx), x0 + max(0, wx) + max(0, hx))
+        y0, y1 = (y0 + min(0, wy) + min(0, hy), y0 + max(0, wy) + max(0, hy))
 
         if crs is None or (crs == self.crs):
             (a, b, c, d) = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
-- 
2.43.0


From 939e30ab4c1cda1a57912d642e25c5edd178f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 005/142] fix: data_extent is the extent of the data cells for
 any transform and band count

---
 karta/raster/grid.py | 54 ++++++++++----------------------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index d16720b..87df943 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -405,57 +405,27 @@ class RegularGrid(Grid):
         sx, sy = self.transform[4:6]
         x0 = self.transform[0] + 0.5*dx + 0.5*sx
         y0 = self.transform[1] + 0.5*dy + 0.5*sy
-        ny, nx = self.size
 
-        # Reading a row is fast, so process from bottom to top
-        bx = x0
-        by = y0 + ny*dy
-        tx = x0
-        ty = y0
-        lx = x0 + nx*dx
-        ly = y0
-        rx = y0
-        ry = y0
-
-        jvec = np.arange(nx)
-
-        for i, row in enumerate(self[:,:]):
-            x = (x0 + jvec*dx + i*sx)[isdata(row.squeeze())]
-            y = (y0 + i*dy + jvec*sy)[isdata(row.squeeze())]
-
-            if len(x) != 0:
-
-                xmax, xmin = x.max(), x.min()
-                ymax, ymin = y.max(), y.min()
-                if ymin < by:
-                    by = ymin
-                    bx = x[y==ymin]
-                if ymax > ty:
-                    ty = ymax
-                    tx = x[y==ymax]
-                if xmin < lx:
-                    lx = xmin
-                    ly = y[x==xmin]
-                if xmax > rx:
-                    rx = xmax
-                    ry = y[x==xmax]
+        # Coordinates of the cells containing data in every band
+        i, j = np.nonzero(np.all(isdata(self[:,:,:]), axis=-1))
+        x = x0 + j*dx + i*sx
+        y = y0 + i*dy + j*sy
 
         if reference == 'center':
             pass
         elif reference == 'edge':
-            lx -= 0.5*dx - 0.5*sx
-            rx += 0.5*dx + 0.5*sx
-            by -= 0.5*dy - 0.5*sy
-            ty += 0.5*dy + 0.5*sy
+            corners = [(-0.5, -0.5), (-0.5, 0.5), (0.5, -0.5), (0.5, 0.5)]
+            x, y = (np.concatenate([x + a*dx + b*sx for (a, b) in corners]),
+                    np.concatenate([y + b*dy + a*sy for (a, b) in corners]))
         else:
             raise errors.GridError("`reference` must be 'center' or 'edge'")
 
+        if len(x) == 0:
+            return (np.nan, np.nan, np.nan, np.nan)
+
         if (crs is not None) and (crs != self.crs):
-            lx, ly = self.crs.transform(crs, lx, ly)
-            rx, ry = self.crs.transform(crs, rx, ry)
-            bx, by = self.crs.transform(crs, bx, by)
-            tx, ty = self.crs.transform(crs, tx, ty)
-        return (lx, rx, by, ty)
+            x, y = self.crs.transform(crs, x, y)
+        return (np.min(x), np.max(x), np.min(y), np.max(y))
 
     @property
     def data_mask_full(self):
-- 
2.43.0


From 73ee19589c0386cee09ead3f551c491a1aa09c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 006/142] fix: coordinates of a slice pair keep both dimensions
 when one has length one

---
 karta/raster/coordgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/coordgen.py b/karta/raster/coordgen.py
index 8a9b48c..27b6b66 100644
--- a/karta/raster/coordgen.py
+++ b/karta/raster/coordgen.py
@@ -57,7 +57,8 @@ class CoordinateGenerator(object):
         if isinstance(jkey, slice):
             jkey = np.arange(*jkey.indices(self.size[1]))
         if hasattr(ikey, "__len__") and hasattr(jkey, "__len__") and \
-                (len(ikey) > 1) and (len(jkey) > 1):
+                ((len(ikey) > 1 and len(jkey) > 1) or
+                 (isinstance(key[0], slice) and isinstance(key[1], slice))):
             jkey, ikey = np.meshgrid(jkey, ikey)
         T = self.transform
         x_ = T[0] + jkey*T[2] + ikey*T[4] + 0.5*T[2] + 0.5*T[4]
-- 
2.43.0


From dc5d3fd81e8633f0b335edd3f87b3a4e4bbcc35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 007/142] fix: nearest sampling keeps bands apart and allows
 all points to be outside

---
 karta/raster/grid.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 87df943..edf0eef 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -832,29 +832,31 @@ class RegularGrid(Grid):
         I = I[~out_of_bounds_mask]
         J = J[~out_of_bounds_mask]
 
-        Imn = int(np.floor(I.min())-1)
-        Imx = int(np.ceil(I.max()+1))
-        Jmn = int(np.floor(J.min())-1)
-        Jmx = int(np.ceil(J.max()+1))
-
-        Imn = max(Imn, 0)
-        Jmn = max(Jmn, 0)
-        Imx = min(Imx, self.size[0])
-        Jmx = min(Jmx, self.size[1])
-
-        I -= Imn
-        J -= Jmn
-
         data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
                         dtype=self.bands[0].dtype)
 
         data[out_of_bounds_mask, :] = self.nodata_value
-        data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
+
+        if len(I) != 0:
+            Imn = int(np.floor(I.min())-1)
+            Imx = int(np.ceil(I.max()+1))
+            Jmn = int(np.floor(J.min())-1)
+            Jmx = int(np.ceil(J.max()+1))
+
+            Imn = max(Imn, 0)
+            Jmn = max(Jmn, 0)
+            Imx = min(Imx, self.size[0])
+            Jmx = min(Jmx, self.size[1])
+
+            I -= Imn
+            J -= Jmn
+
+            data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
 
         if x.ndim == 1:
-            return data.reshape(self.nbands, x.shape[0])
+            return data.T.reshape(self.nbands, x.shape[0])
         else:
-            return data.reshape(self.nbands, x.shape[0], x.shape[1])
+            return data.T.reshape(self.nbands, x.shape[0], x.shape[1])
 
     def sample_bilinear(self, x, y):
         """ Return the value nearest to coordinates using a bi-linear sampling
-- 
2.43.0


From dea12ce87ade5b0dab2d5f24c9179b8b33536406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 008/142] fix: bilinear sampling of points along the first row
 or column

---
 karta/raster/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index edf0eef..76f2afa 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -897,14 +897,14 @@ class RegularGrid(Grid):
         # compute only the region necessary
         if len(I) != 1:
             Imn = int(np.floor(I.min())-1)
-            Imx = int(np.ceil(I.max()+1))
+            Imx = int(np.floor(I.max())+2)
             Jmn = int(np.floor(J.min())-1)
-            Jmx = int(np.ceil(J.max()+1))
+            Jmx = int(np.floor(J.max())+2)
 
             Imn = max(Imn, 0)
             Jmn = max(Jmn, 0)
-            Imx = min(Imx, self.size[0])
-            Jmx = min(Jmx, self.size[1])
+            Imx = max(min(Imx, self.size[0]), 0)
+            Jmx = max(min(Jmx, self.size[1]), 0)
 
             I -= Imn
             J -= Jmn
@@ -916,7 +916,7 @@ class RegularGrid(Grid):
 
         data = []
         for i, band in enumerate(self.bands):
-            v = self[Imn:Imx,Jmn:Jmx,i].squeeze()
+            v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
             elif band.dtype in (np.int16, np.int32, np.int64):
-- 
2.43.0


From ba24b39bd0d28f0deb183a98c0acf4617f6f2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 009/142] fix: bilinear sampling of 64-bit integer and 32-bit
 unsigned grids

---
 karta/raster/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 76f2afa..4c8a924 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -919,9 +919,13 @@ class RegularGrid(Grid):
             v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
-            elif band.dtype in (np.int16, np.int32, np.int64):
+            elif band.dtype in (np.int64, np.uint32):
+                # values do not fit in the integer versions below
+                data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value)
+                            .astype(band.dtype))
+            elif band.dtype in (np.int16, np.int32):
                 data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int32), self.nodata_value))
-            elif band.dtype in (np.uint8, np.uint16, np.uint32):
+            elif band.dtype in (np.uint8, np.uint16):
                 data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint16), self.nodata_value))
             else:
                 raise NotImplementedError("no sample_bilinear method for dtype:"
-- 
2.43.0


From c856ba85a744f5798746452b41f04adc7c44bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 010/142] fix: bilinear sampling of integer grids outside the
 grid yields nodata

---
 karta/raster/crfuncs.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index de7b055..cc0de43 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -109,10 +109,13 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
-                     + float(Z[i1,j0]) * (i-i0) * (j1-j) \
-                     + float(Z[i0,j1]) * (i1-i) * (j-j0) \
-                     + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+            out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
+                         + float(Z[i1,j0]) * (i-i0) * (j1-j) \
+                         + float(Z[i0,j1]) * (i1-i) * (j-j0) \
+                         + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        else:
+            out[cnt] = na
     return out
 
 def sample_bilinear_double(double[:] I not None, double[:] J not None,
-- 
2.43.0


From 53cf31d254b8dd67fb69839cd63bc77bf4e7dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 011/142] fix: sampling at three-dimensional points and lines

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 4c8a924..a68bdbe 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -978,7 +978,7 @@ class RegularGrid(Grid):
             if args[0]._geotype == "Point":
                 x, y = args[0].vertex(crs=self.crs)[:2]
             elif args[0]._geotype == "Multipoint":
-                x, y = args[0].coords(crs=self.crs)
+                x, y = args[0].coords(crs=self.crs)[:2]
             else:
                 raise argerror
         else:
@@ -1026,7 +1026,7 @@ class RegularGrid(Grid):
         if resolution is None:
             resolution = min(self.transform[2:4])
         points = line.to_points(resolution)
-        z = self.sample(*points.coords(crs=self.crs), **kw)
+        z = self.sample(*points.coords(crs=self.crs)[:2], **kw)
         if len(self.bands) != 1:
             for i in range(self.nbands):
                 points.data.setfield("band_{0}".format(i), z[i])
-- 
2.43.0


From 92fa6f8b26dabe49a83b5f9619fd1593df68c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 012/142] fix: clip to a box that extends beyond the grid

---
 karta/raster/grid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index a68bdbe..5ba6209 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -520,6 +520,13 @@ class RegularGrid(Grid):
         j0 = int(np.ceil(min(ll[1], lr[1], ul[1], ur[1])))
         j1 = int(np.floor(max(ll[1], lr[1], ul[1], ur[1]))) + 1
 
+        # the box may extend beyond the grid
+        ny, nx = self.size
+        i0, i1 = max(i0, 0), min(i1, ny)
+        j0, j1 = max(j0, 0), min(j1, nx)
+        if i0 >= i1 or j0 >= j1:
+            raise errors.GridError("no grid cells within the clipping box")
+
         values = self[i0:i1,j0:j1].copy()
         x0 = t[0] + j0*t[2] + i0*t[4]
         y0 = t[1] + i0*t[3] + j0*t[5]
-- 
2.43.0


From e4093e9283dfa07dda3ed3c2905aa7152e2dca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 013/142] fix: default chunk size of grids with fewer than four
 rows or columns

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 5ba6209..56bd502 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -463,7 +463,7 @@ class RegularGrid(Grid):
         """
         ny, nx = self.size
         if size == (-1, -1):
-            size = (nx//4, ny//4)
+            size = (max(nx//4, 1), max(ny//4, 1))
 
         i0 = 0
         j0 = 0
-- 
2.43.0


From 1f42c78d886e3077e8c8ab4f15a432e327952995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 014/142] fix: resize places cells consistently for half-cell
 shifts and disjoint boxes

---
 karta/raster/grid.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 56bd502..6f80b6c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -565,23 +565,26 @@ class RegularGrid(Grid):
         nynew = int(_round((bbnew[3]-bbnew[1])/dy))
         Tnew = [bbnew[0], bbnew[1], dx, dy, sx, sy]
 
-        # determine the indices of existing data on the new grid
-        j0new = max(0,     int(_round((bb[0]-bbnew[0])/dx)))
-        j1new = min(nxnew, int(_round((bb[2]-bbnew[0])/dx)))
-        i0new = max(0,     int(_round((bb[1]-bbnew[1])/dy)))
-        i1new = min(nynew, int(_round((bb[3]-bbnew[1])/dy)))
+        # determine the position of the new grid's first cell on the old grid
+        joff = int(_round((bbnew[0]-bb[0])/dx))
+        ioff = int(_round((bbnew[1]-bb[1])/dy))
 
         # determine the indices of the data to copy on the old grid
-        j0 = max(0,  int(_round((bbnew[0]-bb[0])/dx)))
-        j1 = min(nx, int(_round((bbnew[2]-bb[0])/dx)))
-        i0 = max(0,  int(_round((bbnew[1]-bb[1])/dy)))
-        i1 = min(ny, int(_round((bbnew[3]-bb[1])/dy)))
+        j0 = max(0,  joff)
+        j1 = max(j0, min(nx, joff+nxnew))
+        i0 = max(0,  ioff)
+        i1 = max(i0, min(ny, ioff+nynew))
+
+        # determine the indices of existing data on the new grid
+        j0new = j0-joff
+        i0new = i0-ioff
 
         newbands = []
         for band in self.bands:
             newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
                                    initval=self.nodata)
-            newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
+            if (i1 > i0) and (j1 > j0):
+                newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
             newbands.append(newband)
 
         gridnew = RegularGrid(Tnew, bands=newbands, crs=self.crs,
-- 
2.43.0


From 0727776790fb93318de51b749243acb1a5dec4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 015/142] fix: merge of integer grids and of grids whose
 offsets are inexact

---
 karta/raster/grid.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 6f80b6c..4e9dde5 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1163,7 +1163,7 @@ def merge(grids, weights=None):
     if weights is None:
         weights = np.ones(len(grids))
     else:
-        weights = np.asarray(weights, dtype=np.float32)
+        weights = np.asarray(weights, dtype=np.float64)
 
     normalizedweights = weights * len(weights) / weights.sum()
 
@@ -1184,24 +1184,27 @@ def merge(grids, weights=None):
     outbands = []
 
     for iband in range(len(grids[0].bands)):
-        values = np.zeros([ny, nx], dtype=typ)
-        counts = np.zeros([ny, nx], dtype=np.float32)
+        values = np.zeros([ny, nx], dtype=np.result_type(typ, np.float64))
+        counts = np.zeros([ny, nx], dtype=np.float64)
 
         for grid, weight in zip(grids, normalizedweights):
             _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-            offx = int((_xmin-xmin) / T[2])
-            offy = int((_ymin-ymin) / T[3])
+            offx = int(round((_xmin-xmin) / T[2]))
+            offy = int(round((_ymin-ymin) / T[3]))
             _ny, _nx = grid.size
 
             mask = grid.data_mask
             counts[offy:offy+_ny,offx:offx+_nx][mask] += weight
             _bnd = grid.bands[iband]
-            values[offy:offy+_ny,offx:offx+_nx][mask] += typ(_bnd.getblock(0, 0, *_bnd.size)[mask]) * weight
+            values[offy:offy+_ny,offx:offx+_nx][mask] += _bnd.getblock(0, 0, *_bnd.size)[mask] * weight
             del mask
 
         validcountmask = (counts!=0.0)
-        values[validcountmask] = values[validcountmask] / counts[validcountmask]
-        values[~validcountmask] = grids[0].nodata
+        means = values[validcountmask] / counts[validcountmask]
+        if issubclass(typ, numbers.Integral):
+            means = np.rint(means)
+        values = np.full([ny, nx], grids[0].nodata, dtype=typ)
+        values[validcountmask] = means
 
         band = CompressedBand((ny, nx), typ, initval=grids[0].nodata)
         band.setblock(0, 0, values)
-- 
2.43.0


From b2a390bf1bdd0ea61470b84bd24f5b8fa2fabc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 016/142] fix: mask_by_poly on grids whose cells are not square

---
 karta/raster/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 4e9dde5..121f5f3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1329,6 +1329,9 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
         tb = tb + ny*td
         td = -td
 
+    # convert segment slopes to grid index units
+    aspect = td/tc
+
     i0 = int(round((y0-tb - tf/tc*(x0-ta)) / (td - tf*te/tc)))
     j0 = int(round((x0-ta - te/td*(y0-tb)) / (tc - te*tf/td)))
 
@@ -1348,7 +1351,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i0, i1):
                     if (0 <= i < ny):
-                        j = int(round((i-i0) * (x1-x0)/(y1-y0) + j0))
+                        j = int(round((i-i0) * (x1-x0)/(y1-y0) * aspect + j0))
                         if j < nx:
                             mask[i, max(0, j):] += 1
 
@@ -1356,7 +1359,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i1, i0):
                     if (0 <= i < ny):
-                        j = int(round((i-i1) * (x1-x0)/(y1-y0) + j1))
+                        j = int(round((i-i1) * (x1-x0)/(y1-y0) * aspect + j1))
                         if j < nx:
                             mask[i, max(0, j):] -= 1
 
-- 
2.43.0


From f2e5a1b984d96645aaf450bbc01c3d7107ceca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 017/142] fix: divergence of unsigned grids and next to nodata

---
 karta/raster/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index 7dd2140..9d8cda1 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -123,9 +123,10 @@ def divergence(grid, bands=(0, 1)):
     """
     if grid.skew != (0, 0):
         raise NotImplementedError("divergence calculations not implemented on skewed grids")
+    mask = grid.data_mask
     return RegularGrid(grid.transform,
-                       _div(grid[:,:,bands[0]],
-                            grid[:,:,bands[1]],
+                       _div(np.where(mask, grid[:,:,bands[0]], np.nan),
+                            np.where(mask, grid[:,:,bands[1]], np.nan),
                             grid.resolution),
                        crs=grid.crs, nodata_value=np.nan)
 
-- 
2.43.0


From c4b0783135c1904d7fd68b65d529257081243adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 018/142] fix: copies of a grid keep its coordinate system

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 121f5f3..aed68d3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -49,7 +49,8 @@ class Grid(object):
 
     def copy(self):
         """ Return a deep copy """
-        return copy.deepcopy(self)
+        # coordinate systems are shared rather than copied
+        return copy.deepcopy(self, {id(self.crs): self.crs})
 
     def apply(self, func, inplace=False):
         """ Apply a vector function to grid values.
-- 
2.43.0


From 23ba3a0601f2677d61296851c0f2906b59f12e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 019/142] fix: Polygon.contains is true on the whole boundary,
 as documented

---
 karta/vector/contains.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 0de0960..288f342 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -1,4 +1,4 @@
-from libc.math cimport fabs
+from libc.math cimport fabs, fmin, fmax
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
 from vectorgeo cimport Vector2
@@ -29,6 +29,11 @@ def contains(double x, double y, CoordString poly):
         else:
             pt1.x = poly.coords[0]
             pt1.y = poly.coords[1]
+        if (isleft(pt, pt0, pt1) == 0 and
+                fmin(pt0.x, pt1.x) <= pt.x <= fmax(pt0.x, pt1.x) and
+                fmin(pt0.y, pt1.y) <= pt.y <= fmax(pt0.y, pt1.y)):
+            # on the boundary
+            return True
         if (pt0.y <= pt.y < pt1.y):
             # crosses upward
             if isleft(pt, pt0, pt1) > 0:
-- 
2.43.0


From edfd60acf8c2aff8008aa5a5e06d514b50164d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 020/142] fix: polygons made from an open string of coordinates
 are closed

---
 karta/vector/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ececdc1..575854b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -337,6 +337,8 @@ class MultiVertexBase(Geometry):
         super(MultiVertexBase, self).__init__(**kwargs)
 
         if isinstance(vertices, CoordString):
+            if bool(vertices.ring) != bool(ring) and len(vertices) != 0:
+                vertices = CoordString(vertices.asarray(), ring=ring)
             self._vertices = vertices
             return
 
-- 
2.43.0


From a05d81ff17ab89e365730edf9e9a85b50a3542e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 021/142] fix: Multipolygon keeps the sub-polygons of its
 inputs as rings

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 575854b..63fb966 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1688,7 +1688,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for polygon in inputs:
                 rings = [CoordString(polygon.vertices(crs=crs))]
                 for sub in polygon.subs:
-                    rings.append(sub)
+                    rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From 4a694e378dffae74dd154cde690db90c0b5bb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:05 +0000
Subject: [PATCH 022/142] fix: containment in polygons around a pole

---
 karta/vector/contains.pyx | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 288f342..0054e7c 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -1,4 +1,4 @@
-from libc.math cimport fabs, fmin, fmax
+from libc.math cimport fabs, fmin, fmax, sin, cos, M_PI
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
 from vectorgeo cimport Vector2
@@ -52,6 +52,7 @@ def contains_proj(double x, double y, CoordString poly, object crs):
     """
     cdef double sum_az = 0.0, az0, az1
     cdef double x0, y0, x1, y1
+    cdef double cx = 0.0, cy = 0.0, cz = 0.0
     cdef int i
 
     if not poly.ring:
@@ -70,20 +71,29 @@ def contains_proj(double x, double y, CoordString poly, object crs):
 
         # correct for crossing prime meridian
         if az1 - az0 < -180:
-            # ccw
+            # cw
             sum_az += (az1-az0) + 360
-        elif az0 - az1 > 180:
-            # cc
+        elif az1 - az0 > 180:
+            # ccw
             sum_az += (az1-az0) - 360
         else:
             sum_az += (az1-az0)
 
+        # sum of the vertices as vectors
+        cx += cos(M_PI*y1/180.0)*cos(M_PI*x1/180.0)
+        cy += cos(M_PI*y1/180.0)*sin(M_PI*x1/180.0)
+        cz += sin(M_PI*y1/180.0)
+
         az0 = az1
         x0 = x1
         y0 = y1
 
-    if fabs(sum_az) > 1e-4:
+    if fabs(sum_az) < 180.0:
         return False
-    else:
-        return True
+
+    # the boundary winds around a point inside, and also around the antipodes
+    # of the interior
+    return (cx*cos(M_PI*y/180.0)*cos(M_PI*x/180.0) +
+            cy*cos(M_PI*y/180.0)*sin(M_PI*x/180.0) +
+            cz*sin(M_PI*y/180.0)) > 0.0
 
-- 
2.43.0


From edc72cbcf643488881d2736adabaf0f9f2678305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:05 +0000
Subject: [PATCH 023/142] fix: polygons that cross the dateline twice do not
 contain a pole

---
 karta/vector/geometry.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 63fb966..6c174d0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1069,10 +1069,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         sum_angle = 0.0
         for vertex in self._vertices:
             lon1 = geodesy.reduce_deg(vertex[0])
-            if _cdateline.crosses_dateline(lon0, lon1):
-                sum_angle += 360.0 + lon1 - lon0
-            else:
-                sum_angle += lon1 - lon0
+            sum_angle += lon1 - lon0 - 360.0*_cdateline.crosses_dateline(lon0, lon1)
             lon0 = lon1
 
         return True if abs(sum_angle) > 1e-4 else False
@@ -1161,14 +1158,16 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
         Notes
         -----
-        - When the polygon is polar in a geographical coordinate system, a less
+        - When the polygon is polar or crosses the dateline in a geographical
+          coordinate system, a less
           efficient algorithm is used. For better performance, consider
           projecting to an appropriate coordinate system such as NSIDCNorth or
           NSIDCSouth beforehand.
         - Otherwise, a planar algorithm is used.
         """
         x, y = point.vertex(crs=self.crs)[:2]
-        if isinstance(self.crs, GeographicalCRS) and self.ispolar():
+        if isinstance(self.crs, GeographicalCRS) and \
+                (self.ispolar() or self.crosses_dateline()):
             return _ccontains.contains_proj(x, y, self._vertices, self.crs) \
                     and not any(p.contains(point) for p in self.subs)
         else:
-- 
2.43.0


From 2f7427f0a5f536936531c8c24a9cf3c8259d265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 024/142] fix: tables do not share their rows with the table or
 list they were made from

---
 karta/vector/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 3e88582..b305167 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -36,7 +36,7 @@ class Table(Sequence):
             if hasattr(data, "_fields"):
                 # Data is Table-like
                 self._fields = data._fields
-                self._data = data._data
+                self._data = list(data._data)
             elif len(data) == 0:
                 # Data is empty dict or empty iterable
                 self._fields = ()
@@ -64,7 +64,7 @@ class Table(Sequence):
                     not isinstance(data[0], str) and (len(data[0]) != len(fields))):
                 raise ValueError("Length of data entries and fields don't match")
             self._fields = tuple(fields)
-            self._data = data
+            self._data = list(data)
 
         if checktypes:
             self._validatetypes()
-- 
2.43.0


From 5f8c49a04ab63b98c9d37121b58d224b0526812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 025/142] fix: table made from a dictionary of scalars has one
 row

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index b305167..88b5e4a 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -51,7 +51,7 @@ class Table(Sequence):
                     self._data = [tuple(item) for item in zipvalues]
                 else:
                     # Scalar entries
-                    self._data = [(data[f],) for f in self._fields]
+                    self._data = [tuple(data[f] for f in self._fields)]
             else:
                 # Data is list or scalar
                 self._fields = ("value",)
-- 
2.43.0


From 320b3ee5cde7ca3882e508d7c42f02d8b9f389bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 026/142] fix: fields of a table with no values yet

---
 karta/vector/table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 88b5e4a..e18aaa7 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -31,7 +31,7 @@ class Table(Sequence):
                 self._fields = ()
             else:
                 self._fields = tuple(fields)
-            self._data = [() for _ in range(size)]
+            self._data = [(None,)*len(self._fields) for _ in range(size)]
         elif fields is None:
             if hasattr(data, "_fields"):
                 # Data is Table-like
@@ -137,9 +137,11 @@ class Table(Sequence):
         """ Modify or add a field with *values* """
         if len(self) != 0 and len(values) != len(self):
             raise ValueError("mismatch between table length and field values")
-        elif len(self) == 0:
+        elif len(self) == 0 and set(self._fields) <= {field}:
             self._fields = (field,)
             self._data = [(v,) for v in values]
+        elif len(self) == 0 and len(values) != 0:
+            raise ValueError("mismatch between table length and field values")
         elif field in self._fields:
             idx = self._fields.index(field)
             self._data = [tuplemut(row, v, idx) for row, v in zip(self._data, values)]
-- 
2.43.0


From 15b67f7773339d80ec63d32a083889617d384dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:50 +0000
Subject: [PATCH 027/142] fix: points and lines joined into a multipart
 geometry always have table rows

---
 karta/vector/geometry.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 6c174d0..3a36804 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1185,7 +1185,11 @@ class Multipart(Geometry):
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
         if isinstance(data, Table):
-            self.data = data
+            if len(data) not in (0, len(self._vertices)):
+                raise ValueError("length of `data` ({n}) not equal to length "
+                                 "of inputs ({m})".format(n=len(data), m=len(inputs)))
+            else:
+                self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
         else:
@@ -1258,7 +1262,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             crs = kwargs.get("crs", inputs[0].crs)
             self._vertices = CoordString([point.vertex(crs=crs) for point in inputs])
             data = merge_properties([point.properties for point in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or Table(size=len(inputs))).updated(data)
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = CoordString(inputs)
@@ -1568,7 +1572,7 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             self._vertices = [CoordString(line.vertices(crs=crs))
                              for line in inputs]
             data = merge_properties([line.properties for line in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or Table(size=len(inputs))).updated(data)
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = [CoordString(part) for part in inputs]
@@ -1690,7 +1694,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                     rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data)
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = []
-- 
2.43.0


From c0208c88f238640c0f438b22aee0873f96ab3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:00 +0000
Subject: [PATCH 028/142] fix: Polygon.to_line

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3a36804..63427ca 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1176,8 +1176,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def to_line(self):
         """ Returns a self-closing polyline. Discards sub-polygons. """
-        v = self._vertices + self._vertices[0]
-        return Line(v, properties=self.properties, crs=self.crs)
+        return Line(self.vertices_ring, properties=self.properties, crs=self.crs)
 
 class Multipart(Geometry):
     """ Base for objects consisting of multiple singular types. """
-- 
2.43.0


From 2c6f31bd8e03ddbed40180febf4d73375947927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:17 +0000
Subject: [PATCH 029/142] fix: geodesic areas south of and across the equator,
 and across the dateline

---
 karta/geodesy.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e46c968..7b88202 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -114,16 +114,13 @@ def sphere_azimuth(lon1, lat1, lon2, lat2):
 
 def spherical_area(r, x1, y1, x2, y2):
     """ Area between a geodesic and the equator on a sphere """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
     phi1 = _radians(y1)
     phi2 = _radians(y2)
-    lambda12 = _radians(x2-x1)
-    alpha1, alpha2, _ = solve_vincenty(r, 0, lambda12, phi1, phi2)
-    return reverse * r**2 * (alpha2-alpha1)
+    lambda12 = _radians(reduce_deg(x2-x1))
+    # Bessel identity for alpha2 - alpha1
+    alpha12 = 2*atan2(sin(0.5*phi1+0.5*phi2) * tan(0.5*lambda12),
+                      cos(0.5*phi2-0.5*phi1))
+    return r**2 * alpha12
 
 def isbetween_circular(x, x0, x1):
     """ Tests whether *x* is between *x0* and *x1* on a circle [-180, 180) """
@@ -514,7 +511,7 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
         # Newton iteration
 
         # Guess the azimuth
-        if (abs(lambda12-pi) > 0.0087) and (abs(phi1+phi2) > 0.0087):
+        if (abs(lambda12-pi) > 0.0087) or (abs(phi1+phi2) > 0.0087):
             # not nearly antipodal
             alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
         else:
@@ -714,19 +711,17 @@ def ellipsoidal_area(a, b, x1, y1, x2, y2):
         latitude of geodesic segment end
 
     """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    # areas south of the equator and of westward segments are negative
+    sign = -1 if tr["xflip"] != tr["ysignswap"] else 1
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
     lambda12 = (x2-x1)*pi/180.0
 
     az, baz, _ = ellipsoidal_inverse(a, b, x1, y1, x2, y2)
     alpha1 = az * pi/180
-    alpha2 = (baz-pi) * pi/180
-    return reverse * _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2)
+    alpha2 = baz * pi/180 - pi
+    return sign * _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2)
 
 
 ###### Root-finding ######
-- 
2.43.0


From d43706052a817aff393088a291d4439cda53ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:40 +0000
Subject: [PATCH 030/142] fix: geodesic areas of polygons with a vertex at a
 pole or with three-dimensional vertices

---
 karta/geodesy.py         | 11 +++++++----
 karta/vector/geometry.py |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 7b88202..7af90cd 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -423,7 +423,7 @@ def _ellipsoidal_inverse_equatorial(a, x1, x2):
     else:
         az = 90.0
         baz = -90.0
-    s12 = 2 * pi * a * abs(x1-x2)/360.0
+    s12 = 2 * pi * a * abs(diff)/360.0
     return az, baz, s12
 
 def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
@@ -478,9 +478,10 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     eccn2 = f*(2-f)
     second_eccn2 = eccn2 / (1-eccn2)
 
-    if x1 == x2:
-        # Meridional case 1
-        alpha0 = alpha1 = alpha2 = omega1 = omega2 = 0.0
+    if x1 == x2 or y1 == -90:
+        # Meridional case 1, including every geodesic from a pole
+        alpha1 = lambda12
+        alpha0 = alpha2 = omega1 = omega2 = 0.0
 
         _i = sqrt(cos(alpha1)**2 + (sin(alpha1)*sin(beta1))**2)
         alpha0 = atan2(sin(alpha1)*cos(beta1), _i)
@@ -652,6 +653,8 @@ def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
     sigma1, omega1 = _solve_NEA(alpha0, alpha1, beta1)
     _, sigma2, omega2 = _solve_NEB(alpha0, alpha1, beta1, beta2)
     omega12 = omega2 - omega1
+    if phi1 == -0.5*pi:     # pole, where sigma1 does not determine omega1
+        omega12 = lambda12
 
     # Bessel identity for alpha2 - alpha1
     alpha12 = 2*atan(sin(0.5*beta1+0.5*beta2)/cos(0.5*beta2-0.5*beta1) \
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 63427ca..e9bab39 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1122,14 +1122,14 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             area = 0.0
             if major_axis == minor_axis:    # Sphere
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.spherical_area(major_axis, x1, y1, x2, y2)
 
             else:
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.ellipsoidal_area(major_axis, minor_axis,
                                                      x1, y1, x2, y2)
 
-- 
2.43.0


From 2b142e120ffb77fbd2ecb7a26d8e9397831f6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:40 +0000
Subject: [PATCH 031/142] fix: area of polygons that contain a pole

---
 karta/geodesy.py         | 10 ++++++++--
 karta/vector/geometry.py |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 7af90cd..c36d8d8 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -632,6 +632,13 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     backaz = ((alpha2+pi)*180/pi + 180) % 360 - 180
     return az, backaz, s12
 
+def authalic_radius(a, b):
+    """ Radius of the sphere with the same area as an ellipsoid """
+    if a == b:
+        return a
+    e = sqrt(1 - b**2/a**2)
+    return sqrt(a**2/2 + b**2/2*atanh(e)/e)
+
 def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
     """ Area of a single quatrilateral defined by two meridians, the equator,
     and another geodesic.
@@ -641,8 +648,7 @@ def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
     ep2 = e2/(1-e2)
     e = sqrt(e2)
 
-    # Authalic radius
-    c = sqrt(a**2/2 + b**2/2*atanh(e)/e)
+    c = authalic_radius(a, b)
 
     beta1 = atan((1-f)*tan(phi1))
     beta2 = atan((1-f)*tan(phi2))
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e9bab39..792cfb3 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1133,6 +1133,12 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
                     area += geodesy.ellipsoidal_area(major_axis, minor_axis,
                                                      x1, y1, x2, y2)
 
+            if self.ispolar():
+                # the area between the boundary and the equator is the part of
+                # the hemisphere that is outside of the polygon
+                radius = geodesy.authalic_radius(major_axis, minor_axis)
+                area = 2*np.pi*radius**2 - abs(area)
+
         else:
             # Cartesian coordinate systems
             x, y = self.coords()
-- 
2.43.0


From eb18413e0b173e920c2bc4160a64d9b75b5b6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 032/142] fix: initial guess of geodesics between points at
 nearly opposite latitudes

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index c36d8d8..bb0048c 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -512,7 +512,7 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
         # Newton iteration
 
         # Guess the azimuth
-        if (abs(lambda12-pi) > 0.0087) or (abs(phi1+phi2) > 0.0087):
+        if abs(lambda12-pi) > 0.0087:
             # not nearly antipodal
             alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
         else:
-- 
2.43.0


From df822abf07a5f0316b1d7277e8025ce08be37426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:07 +0000
Subject: [PATCH 033/142] fix: empty, reversed and strided slices of geometries

---
 karta/vector/geometry.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 792cfb3..3bc84cd 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -378,8 +378,7 @@ class MultiVertexBase(Geometry):
         if isinstance(key, (int, np.int64)):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            verts = self._vertices.slice(start, stop, stride)
+            verts = [self._vertices[i] for i in range(*key.indices(len(self._vertices)))]
             return type(self)(verts, properties=self.properties, crs=self.crs)
         else:
             raise KeyError('index must be integer or slice object')
@@ -558,7 +557,7 @@ class MultiVertexMixin(object):
         """ Return a subset defined by indices. """
         vertices = [self._vertices[i] for i in idxs]
         if hasattr(self, "data"):
-            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data.fields)
+            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data._fields)
             return type(self)(vertices, properties=self.properties, data=data, crs=self.crs)
         else:
             return type(self)(vertices, properties=self.properties, crs=self.crs)
@@ -1001,9 +1000,9 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def __getitem__(self, key):
         if isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            if len(self) != ((stop - start) // stride):
-                return Line(self._vertices.slice(start, stop, stride),
+            indices = range(*key.indices(len(self._vertices)))
+            if len(self) != len(indices):
+                return Line([self._vertices[i] for i in indices],
                             properties=self.properties,
                             crs=self.crs)
         return super(Polygon, self).__getitem__(key)
@@ -1284,10 +1283,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             p.update(self.properties)
             return Point(self._vertices[key], properties=p, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            return Multipoint(self._vertices.slice(start, stop, stride),
-                              properties=self.properties,
-                              data=self.d[key], crs=self.crs)
+            return self._subset(range(*key.indices(len(self._vertices))))
         else:
             raise KeyError(type(key))
 
-- 
2.43.0


From b626f4c1431c8366f9230be43588db3d44b57b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:07 +0000
Subject: [PATCH 034/142] fix: replacing a point of a Multipoint updates its
 index, cached extents and data

---
 karta/vector/geometry.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3bc84cd..bd2a8cd 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1290,17 +1290,24 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def __setitem__(self, key, value):
         if isinstance(key, numbers.Integral):
             if hasattr(value, "vertex"):
-                self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
-                row = []
-                for field in self.data.fields:
-                    row.append(value.properties.get(field, None))
-                self.data[key] = tuple(row)
+                vertex = value.vertex(self.crs)
+                row = tuple(value.properties.get(field, None)
+                            for field in self.data._fields)
             else:
-                if len(value) == len(self._vertices[0]):
-                    verts = self._vertices.asarray()
-                    verts[key] = value
-                    self._vertices = CoordString(verts)
-                self.data[key] = (None for _ in self.data.fields)
+                vertex = value
+                row = tuple(None for _ in self.data._fields)
+            if len(vertex) != len(self._vertices[0]):
+                raise ValueError("rank mismatch ({0} != {1})".format(
+                                    len(vertex), len(self._vertices[0])))
+            verts = np.array(self._vertices.asarray())
+            verts[key] = vertex
+            self._vertices = CoordString(verts)
+            self.data[key] = row
+            self._cache = {}
+            if hasattr(self, "quadtree"):
+                self.quadtree = QuadTree(self._vertices, leaf_capacity=50)
+        else:
+            raise KeyError(type(key))
 
     @property
     def geomdict(self):
-- 
2.43.0


From fc18fa28042b47830a3464f420771f0885a588a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:07 +0000
Subject: [PATCH 035/142] fix: points within a radius or polygon near the
 boundary and in other or geographical coordinates

---
 karta/vector/geometry.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index bd2a8cd..e2a2805 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1374,7 +1374,8 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         -------
         Multipoint
         """
-        if hasattr(self, "quadtree"):
+        if hasattr(self, "quadtree") and point.crs == self.crs and \
+                not isinstance(self.crs, GeographicalCRS):
             candidate_indices = self.quadtree.search_within(point.x-radius,
                                                             point.y-radius,
                                                             point.x+radius,
@@ -1404,9 +1405,16 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def within_polygon(self, poly):
         """ Return Multipoint subset that is within a polygon.
         """
-        if hasattr(self, "quadtree"):
-            bbox = poly.bbox(crs=self.crs)
-            candidate_indices = self.quadtree.search_within(*bbox)
+        if hasattr(self, "quadtree") and poly.crs == self.crs and \
+                not isinstance(self.crs, GeographicalCRS):
+            # points on the boundary belong to the polygon, but the search
+            # excludes the boundary of the box
+            bbox = poly.bbox()
+            candidate_indices = self.quadtree.search_within(
+                                        np.nextafter(bbox[0], -np.inf),
+                                        np.nextafter(bbox[1], -np.inf),
+                                        np.nextafter(bbox[2], np.inf),
+                                        np.nextafter(bbox[3], np.inf))
             confirmed_indices = []
             for i in candidate_indices:
                 if poly.contains(self[i]):
-- 
2.43.0


From 5489b0ba125c7a0d7e205549cee57846f0995fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:24 +0000
Subject: [PATCH 036/142] fix: R-tree keeps every entry when nodes split and
 finds degenerate and touching boxes

---
 karta/vector/rtree.h | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 32f1a42..0fac23d 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -47,6 +47,7 @@ Node* rt_split(Node*);
 Node* rt_split_nonleaf(Node*);
 Node* rt_split_leaf(Node*);
 int rt_adjust_tree(Node*, Node*, Node**, Node**);
+int rt_tighten_bbox(Node*);
 float volume_expanded(Bbox*, Bbox*);
 int linear_pick_seeds(int, Bbox**, int*, int*);
 int linear_pick_next(int, Bbox**, Node*, Node*, int*, int*);
@@ -223,6 +224,7 @@ Node* rt_insert(Node *root, Bbox *bbox, int index) {
         returned_root = rt_new_node(NONLEAF, root->strategy, root->maxchildren, NULL);
         add_node(returned_root, *outnode);
         add_node(returned_root, *outsibling);
+        rt_tighten_bbox(returned_root);
     } else {
         returned_root = *outnode;
     }
@@ -475,6 +477,10 @@ Node* rt_split_leaf(Node *node) {
         }
     }
 
+    // entries placed by the minimum count rule have not been accounted for
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
+
     free(index_array);
     pool_destroy(pool);
     pool_destroy(idx_pool);
@@ -567,6 +573,7 @@ Node* rt_split_nonleaf(Node *node) {
         pool_pop(pool, inextchild);
 
         tmpnode->children[tmpnode->count] = (char*) fosternode;
+        fosternode->parent = tmpnode;
         tmpnode->count++;
         tmpnode->bbox->xmin = minf(tmpnode->bbox->xmin, fosternode->bbox->xmin);
         tmpnode->bbox->xmax = maxf(tmpnode->bbox->xmax, fosternode->bbox->xmax);
@@ -576,17 +583,25 @@ Node* rt_split_nonleaf(Node *node) {
         // prevent either node from having fewer than 2 children
         if ((node_pool->count + node->count) == 2) {
             while (node_pool->count != 0) {
-                node->children[node->count] = (char*) pool_pop(node_pool, node_pool->count-1);
+                fosternode = (Node*) pool_pop(node_pool, node_pool->count-1);
+                node->children[node->count] = (char*) fosternode;
+                fosternode->parent = node;
                 node->count++;
             }
         } else if ((node_pool->count + sibling->count) == 2) {
             while (node_pool->count != 0) {
-                sibling->children[sibling->count] = (char*) pool_pop(node_pool, node_pool->count-1);
+                fosternode = (Node*) pool_pop(node_pool, node_pool->count-1);
+                sibling->children[sibling->count] = (char*) fosternode;
+                fosternode->parent = sibling;
                 sibling->count++;
             }
         }
     }
 
+    // entries placed by the minimum count rule have not been accounted for
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
+
     pool_destroy(pool);
     pool_destroy(node_pool);
     return sibling;
@@ -651,6 +666,10 @@ int linear_pick_seeds(int nbboxes, Bbox **bboxes, int *seed0, int *seed1) {
         *seed0 = imaxymin;
         *seed1 = iminymax;
     }
+    if (*seed0 == *seed1) {
+        // the seeds must be different boxes
+        *seed1 = (*seed0 == 0) ? 1 : 0;
+    }
     return 0;
 }
 
@@ -682,8 +701,8 @@ float volume_expanded(Bbox *bbox0, Bbox *bbox1) {
 }
 
 int is_within(Bbox *outerbb, Bbox *testbb) {
-    if ((testbb->xmin > outerbb->xmin) && (testbb->xmax <= outerbb->xmax) &&
-        (testbb->ymin > outerbb->ymin) && (testbb->ymax <= outerbb->ymax)) {
+    if ((testbb->xmin >= outerbb->xmin) && (testbb->xmax <= outerbb->xmax) &&
+        (testbb->ymin >= outerbb->ymin) && (testbb->ymax <= outerbb->ymax)) {
         return 1;
     } else {
         return 0;
@@ -698,7 +717,9 @@ float bbox_intersection_area(Bbox *bb0, Bbox *bb1) {
 }
 
 int is_overlapping(Bbox *bb, Bbox *testbb) {
-    if (bbox_intersection_area(bb, testbb) > 0.0) {
+    // boxes may be degenerate (points and axis-parallel lines)
+    if ((bb->xmin <= testbb->xmax) && (testbb->xmin <= bb->xmax) &&
+        (bb->ymin <= testbb->ymax) && (testbb->ymin <= bb->ymax)) {
         return 1;
     } else {
         return 0;
-- 
2.43.0


From 26675fc149533ed03538c9265398cf9a988dbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 037/142] fix: intersection tests miss touching, collinear,
 vertical and dateline-crossing segments

---
 karta/vector/intersection.pyx | 467 +++++++---------------------------
 1 file changed, 95 insertions(+), 372 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index e4947c1..de7f811 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -1,15 +1,9 @@
-from libc.math cimport NAN, M_PI, sin, cos, fmin, fmax, isnan
+from libc.math cimport NAN, sqrt, fabs, fmin, fmax, isnan
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
-from vectorgeo cimport (Vector2, Vector3,
-                        cross2, cross3,
-                        azimuth_sph, cart2sph, sph2cart,
-                        eulerpole, eulerpole_cart)
+from vectorgeo cimport (Vector2, Vector3, cross2, cross3, dot3, sph2cart)
 import heapq
 
-cdef bool isbetween_inc(double a, double b, double c):
-    return fmin(a, c) <= b <= fmax(a, c)
-
 cdef bool isbetween_incl(double a, double b, double c):
     return fmin(a, c) <= b < fmax(a, c)
 
@@ -21,22 +15,8 @@ ctypedef bool (*isbetween_t)(double, double, double)
 def bboxes_overlap(tuple bb0, tuple bb1):
     """ Return whether planar bboxes overlap.
     """
-    cdef float dx = 0.0
-    cdef float dy = 0.0
-    dx = fmin(bb0[2], bb1[2]) - fmax(bb0[0], bb1[0])
-    dy = fmin(bb0[3], bb1[3]) - fmax(bb0[1], bb1[1])
-    if dx == 0.0:
-        dx = 1.0
-    elif dx < 0.0:
-        dx = 0.0
-    if dy ==  0.0:
-        dy = 1.0
-    elif dy < 0.0:
-        dy = 0.0
-    if dx*dy == 0.0:
-        return False
-    else:
-        return True
+    return (bb0[0] <= bb1[2]) and (bb1[0] <= bb0[2]) and \
+           (bb0[1] <= bb1[3]) and (bb1[1] <= bb0[3])
 
 def all_intersections(CoordString a, CoordString b):
     """ Brute-force intersection search with len(a)*len(b) complexity """
@@ -62,6 +42,11 @@ def all_intersections(CoordString a, CoordString b):
             x3 = b.getX(j+1)
             y2 = b.getY(j)
             y3 = b.getY(j+1)
+            if iscollinear(x0, x1, x2, x3, y0, y1, y2, y3):
+                # the intersection is a segment, or a point shared by both ends
+                intersections.extend(
+                        sorted([(x0, y0), (x1, y1), (x2, y2), (x3, y3)])[1:3])
+                continue
             xi, yi = intersection(x0, x1, x2, x3, y0, y1, y2, y3)
             if not isnan(xi):
                 intersections.append((xi, yi))
@@ -125,71 +110,6 @@ class EventQueuePlaceholder(object):
             flag = 1
         return flag, x, event
 
-class SweepLinePlaceholder(object):
-    """ This is a placeholder for a sweep-line class. """
-    def __init__(self, spherical=False):
-        self.queue = []
-        self.spherical = spherical
-
-    def __iter__(self):
-        cdef tuple item
-        for item in self.queue:
-            yield item
-
-    def _get_slope_height(self, tuple seg, double x):
-        cdef double m = 0.0, h = 0.0
-        cdef tuple interx
-        if self.spherical:
-            m = -(azimuth_sph(Vector2(seg[0], seg[1]), Vector2(seg[2], seg[3]))*180/M_PI - 90)
-            # compute intersection between seg and a meridional geodesic passing through x
-            interx = intersection_sph(seg[0], seg[2], x, x, seg[1], seg[3], -90, 90)
-            h = interx[1]
-        else:
-            if seg[3] == seg[1]:
-                return m, seg[1]
-            m = (seg[3]-seg[1]) / (seg[2]-seg[0])
-            h = m*(x-seg[0]) + seg[1]
-        return m, h
-
-    def insert(self, tuple item, double x):
-        if len(self.queue) == 0:
-            self.queue.append(item)
-            return
-
-        cdef double m, y, m_, y_
-        cdef int i = 0
-        m, y = self._get_slope_height(item, x)
-        m_, y_ = self._get_slope_height(self.queue[i], x)
-        while (y_ < y) or ((y_ == y) and (m_ < m)):
-            i += 1
-            if i == len(self.queue):
-                break
-            m_, y_ = self._get_slope_height(self.queue[i], x)
-        self.queue.insert(i, item)
-        return
-
-    def leftof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == 0:
-            return None
-        else:
-            return self.queue[idx-1]
-
-    def rightof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == len(self.queue) - 1:
-            return None
-        else:
-            return self.queue[idx+1]
-
-    def remove(self, item):
-        cdef int idx
-        idx = self.queue.index(item)
-        self.queue.pop(idx)
-        return
-
 def intersects(CoordString a, CoordString b):
     """ Shamos-Hoey intersection detection algorithm """
 
@@ -263,12 +183,10 @@ def intersects(CoordString a, CoordString b):
 
     # begin sweep search
     cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder()
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
+    cdef list sweepline = []
+    cdef Event event = None
+    cdef tuple segA
+    cdef list current_events = []
 
     while len(event_queue) != 0:
 
@@ -279,233 +197,49 @@ def intersects(CoordString a, CoordString b):
             flag, x, event = event_queue.takefirst()
             current_events.append((x, event))
 
-        # for all segments that begin, insert into sweepline
+        # for all segments that begin (including vertical segments), check for
+        # intersections with those that have begun and not yet ended
         for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
+            if event.kind == 0 or event.kind == 2:
+                seg = event.seg
                 for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = (segA[3]-segA[1]) / (segA[2]-segA[0])*(seg[0]-segA[0]) + segA[1]
-                    if (seg[1] <= yA) and (seg[3] >= yA):
+                    if _intersects(segA, seg):
                         return True
+                sweepline.append(seg)
 
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects(segA, seg):
-                    return True
-                if segB is not None and _intersects(seg, segB):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None and _intersects(segA, segB):
-                    return True
+        # remove all segments that end from sweepline
+        for x, event in current_events:
+            if event.kind == 1 or event.kind == 3:
+                sweepline.remove(event.seg)
 
     return False
 
 def intersects_sph(CoordString a, CoordString b):
-    """ Shamos-Hoey intersection detection algorithm with adaptations for
-    spherical coordinates. """
-
-   # corner cases:
-   # - simultaneous events          handled
-   # - parallel overlapping lines   handled
-   # - triple intersections         handled(?)
-   # - vertical lines               handled
-   # - self-intersections           handled
-   #
-   # all of the above need tests to verify
-
+    """ Intersection detection for great circle segments on a sphere. """
     cdef int na = len(a), nb = len(b)
-    if a.ring:
-        na = na + 1
-    if b.ring:
-        nb = nb + 1
+    cdef int i, j
 
-    # initialize event queue
-    #
-    # event kind may be:
-    # 0 : left point
-    # 1 : right point
-    # 2 : bottom point on vertical segment
-    # 3 : top point on vertical segment
-    # 4 : intersection (unused)
-    cdef int i = 0
-    cdef object event_queue = EventQueuePlaceholder()
-    cdef double x0, x1, y0, y1
-    cdef tuple seg
-
-    for i in range(na-1):
-        x0 = (a.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (a.getX(i+1) + 180.0) % 360.0 - 180.0
-        y0 = a.getY(i)
-        y1 = a.getY(i+1)
-        seg = (x0, y0, x1, y1, 0)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 0))
-                event_queue.insert(x0, Event(seg, 3, 0))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 0))
-                event_queue.insert(x0, Event(seg, 2, 0))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 0))
-            event_queue.insert(x1, Event(seg, 1, 0))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 0))
-            event_queue.insert(x0, Event(seg, 1, 0))
-
-    for i in range(nb-1):
-        x0 = (b.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (b.getX(i+1) + 180.0) % 360.0 - 180.0
-        y0 = b.getY(i)
-        y1 = b.getY(i+1)
-        seg = (x0, y0, x1, y1, 1)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 1))
-                event_queue.insert(x0, Event(seg, 3, 1))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 1))
-                event_queue.insert(x0, Event(seg, 2, 1))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 1))
-            event_queue.insert(x1, Event(seg, 1, 1))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 1))
-            event_queue.insert(x0, Event(seg, 1, 1))
-
-    # begin sweep search
-    cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder(spherical=True)
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
-
-    while len(event_queue) != 0:
-
-        # get all simultaneous events
-        current_events = []
-        flag = 1
-        while flag == 1:
-            flag, x, event = event_queue.takefirst()
-            current_events.append((x, event))
-
-        # for all segments that begin, insert into sweepline
-        for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
-                for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = intersection_meridian(segA[0], segA[2], segA[1], segA[3], x)
-                    if (seg[1] <= yA) and (seg[3] >= yA):
-                        return True
-
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects_sph(segA[0], segA[2],
-                                                        seg[0], seg[2],
-                                                        segA[1], segA[3],
-                                                        seg[1], seg[3]):
-                    return True
-                if segB is not None and _intersects_sph(segB[0], segB[2],
-                                                        seg[0], seg[2],
-                                                        segB[1], segB[3],
-                                                        seg[1], seg[3]):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None \
-                        and _intersects_sph(segB[0], segB[2], seg[0], seg[2],
-                                            segB[1], segB[3], seg[1], seg[3]):
-                    return True
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
 
+    for i in range(na):
+        for j in range(nb):
+            if _intersects_sph(a.getX(i), a.getX(i+1), b.getX(j), b.getX(j+1),
+                               a.getY(i), a.getY(i+1), b.getY(j), b.getY(j+1)):
+                return True
     return False
 
 cdef bool _intersects(tuple seg1, tuple seg2):
     """ Test whether two segments have an intersection. """
-    cdef tuple interx
     if seg1[4] == seg2[4]:
         # same geometry
         return False
     if iscollinear(seg1[0], seg1[2], seg2[0], seg2[2],
             seg1[1], seg1[3], seg2[1], seg2[3]):
         return True
+    cdef tuple interx
     interx = intersection(seg1[0], seg1[2], seg2[0], seg2[2],
                           seg1[1], seg1[3], seg2[1], seg2[3])
     if isnan(interx[0]):
@@ -521,87 +255,67 @@ cdef bool _intersects(tuple seg1, tuple seg2):
 #    return
 
 cdef bool overlaps(double a0, double a1, double b0, double b1):
-    if (a0 <= b0 <= a1) or (a0 <= b1 <= a1) or (b0 <= a0 <= b1) or (b0 <= a1 <= b1):
-        return True
-    else:
-        return False
+    return fmax(fmin(a0, a1), fmin(b0, b1)) <= fmin(fmax(a0, a1), fmax(b0, b1))
 
 cdef bool iscollinear(double x0, double x1, double x2, double x3,
                       double y0, double y1, double y2, double y3):
     cdef double rxs = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x2, y3-y2))
-    cdef double rxt = -1.0
-    if rxs == 0:
-        rxt = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x0, y3-y0))
-        if rxt == 0:
-            if (x1-x0) != 0 and overlaps(x0, x1, x2, x3):
-                return True
-            elif overlaps(y0, y1, y2, y3):
-                return True
-    return False
-
-cdef bool iscollinear_sph(double x0, double x1, double x2, double x3,
-                          double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    # TODO: check overlap?
-    if ((ep1.x == ep2.x) and (ep1.y == ep2.y) and (ep1.z == ep2.z)) \
-            or ((ep1.x == -ep2.x) and (ep1.y == -ep2.y) and (ep1.z == -ep2.z)):
-        return True
-    else:
+    if rxs != 0:
         return False
+    # zero-length segments have no direction, so measure from either segment
+    if cross2(Vector2(x1-x0, y1-y0), Vector2(x2-x0, y2-y0)) != 0:
+        return False
+    if cross2(Vector2(x3-x2, y3-y2), Vector2(x0-x2, y0-y2)) != 0:
+        return False
+    return overlaps(x0, x1, x2, x3) and overlaps(y0, y1, y2, y3)
+
+cdef Vector3 _arc_normal(Vector3 a, Vector3 b):
+    """ Return a vector normal to the plane of an arc, accurate also for short
+    arcs. """
+    return cross3(Vector3(b.x-a.x, b.y-a.y, b.z-a.z),
+                  Vector3(b.x+a.x, b.y+a.y, b.z+a.z))
+
+cdef bool _on_arc(Vector3 p, Vector3 a, Vector3 b):
+    """ Test whether *p*, a unit vector in the plane of *a* and *b*, is on the
+    arc between them. """
+    cdef Vector3 n = cross3(a, b)
+    cdef double tol = -1e-12 * sqrt(dot3(n, n))
+    return dot3(cross3(a, p), n) >= tol and dot3(cross3(p, b), n) >= tol and \
+           dot3(p, Vector3(a.x+b.x, a.y+b.y, a.z+b.z)) > 0
+
+cdef bool _on_arc_plane(Vector3 p, Vector3 a, Vector3 b, Vector3 n):
+    """ Test whether any *p* is on the arc between *a* and *b*, where n is a
+    result of _arc_normal. """
+    # the normal vector is mirrored by cross3
+    cdef double nn = sqrt(dot3(n, n))
+    if nn == 0.0:
+        return dot3(Vector3(p.x-a.x, p.y-a.y, p.z-a.z),
+                    Vector3(p.x-a.x, p.y-a.y, p.z-a.z)) < 1e-24
+    return fabs(dot3(p, Vector3(n.x, -n.y, n.z))) <= 1e-12*nn and _on_arc(p, a, b)
 
 cpdef bool _intersects_sph(double x0, double x1, double x2, double x3,
                            double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    cdef double antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1) and isbetween_inc(x2, normal.x, x3):
+    cdef Vector3 a = sph2cart(Vector2(x0, y0))
+    cdef Vector3 b = sph2cart(Vector2(x1, y1))
+    cdef Vector3 c = sph2cart(Vector2(x2, y2))
+    cdef Vector3 d = sph2cart(Vector2(x3, y3))
+    cdef Vector3 n1 = _arc_normal(a, b)
+    cdef Vector3 n2 = _arc_normal(c, d)
+    cdef Vector3 p = cross3(n1, n2)
+    cdef double norm = sqrt(dot3(p, p))
+
+    # common endpoints and segments of the same great circle
+    if _on_arc_plane(a, c, d, n2) or _on_arc_plane(b, c, d, n2) or \
+            _on_arc_plane(c, a, b, n1) or _on_arc_plane(d, a, b, n1):
         return True
-    elif isbetween_inc(x0, antipodal_lon, x1) and isbetween_inc(x2, antipodal_lon, x3):
-        return True
-    else:
+    if norm <= 1e-12 * sqrt(dot3(n1, n1) * dot3(n2, n2)):
         return False
 
-cdef double intersection_meridian(double x0, double x1, double y0, double y1,
-                                  double xmeridian):
-    """ Return the latitude of intersection of a spherical geodesic across a
-    meridian. """
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = Vector3(sin(M_PI*xmeridian/180.0),
-                               cos(M_PI*xmeridian/180.0),
-                               0.0)
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    normal.x = (normal.x + 180.0) % 360.0 - 180.0
-    normal.y = (normal.y + 90.0) % 180.0 - 90.0
-    cdef antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1):
-        return normal.y
-    elif isbetween_inc(x0, antipodal_lon, x1):
-        return -normal.y
-    else:
-        return NAN
-
-cpdef tuple intersection_sph(double x0, double x1, double x2, double x3,
-                             double y0, double y1, double y2, double y3):
-    """ Compute the spherical intersection between two segments,
-    ((x0,y0), (x1,y1)) and ((x2,y2), (x3,y3)).
-
-    Returns (NaN, NaN) if no intersection exists.
-    """
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    normal.x = (normal.x + 180.0) % 360.0 - 180.0
-    normal.y = (normal.y + 90.0) % 180.0 - 90.0
-    cdef antipodal_lon = (normal.x + 360) % 360 - 180.0
-    cdef Vector2 antipode = Vector2(antipodal_lon, -normal.y)
-    if isbetween_inc(x0, normal.x, x1) and isbetween_inc(x2, normal.x, x3):
-        return normal.x, normal.y
-    elif isbetween_inc(x0, antipode.x, x1) and isbetween_inc(x2, antipode.x, x3):
-        return antipode.x, antipode.y
-    else:
-        return NAN, NAN
+    p = Vector3(p.x/norm, p.y/norm, p.z/norm)
+    if _on_arc(p, a, b) and _on_arc(p, c, d):
+        return True
+    p = Vector3(-p.x, -p.y, -p.z)
+    return _on_arc(p, a, b) and _on_arc(p, c, d)
 
 cpdef tuple intersection(double x0, double x1, double x2, double x3,
                          double y0, double y1, double y2, double y3):
@@ -616,7 +330,16 @@ cpdef tuple intersection(double x0, double x1, double x2, double x3,
 
     cdef double t = cross2(Vector2(x2-x0, y2-y0), Vector2(x3-x2, y3-y2)) / rxs
     cdef double u = cross2(Vector2(x2-x0, y2-y0), Vector2(x1-x0, y1-y0)) / rxs
-    if (0 < t <= 1) and (0 < u <= 1):
+    if (0 <= t <= 1) and (0 <= u <= 1):
+        # return endpoints exactly
+        if t == 0:
+            return x0, y0
+        elif t == 1:
+            return x1, y1
+        elif u == 0:
+            return x2, y2
+        elif u == 1:
+            return x3, y3
         return x0 + t*(x1-x0), y0 + t*(y1-y0)
     else:
         return NAN, NAN
-- 
2.43.0


From 8c796b2d8a38c82b4b2c9ab5b293c623d5974651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 038/142] fix: intersections of meridional, southern and
 touching great circle segments

---
 karta/geodesy.py | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index bb0048c..f1c72a4 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -30,6 +30,9 @@ def cross(u, v):
          u[0]*v[1] - u[1]*v[0])
     return w
 
+def dot(u, v):
+    return u[0]*v[0] + u[1]*v[1] + u[2]*v[2]
+
 def sph2cart(lon, lat):
     theta = 90-lat
     x = sin(pi*theta/180.0)*cos(pi*lon/180.0)
@@ -38,15 +41,8 @@ def sph2cart(lon, lat):
     return x, y, z
 
 def cart2sph(x, y, z):
-    if abs(z) > 1e-4:
-        theta = atan(sqrt(x**2+y**2)/z)
-    else:
-        theta = acos(z / sqrt(x**2+y**2+z**2))
-    if abs(x) > 1e-4:
-        lon = atan2(y, x)
-    else:
-        lon = asin(y/sqrt(x**2+y**2))
-    lat = 0.5*pi - theta
+    lon = atan2(y, x)
+    lat = atan2(z, sqrt(x**2+y**2))
     return lon*180/pi, lat*180/pi
 
 @recurse_iterables
@@ -137,20 +133,18 @@ def eulerpole(pt1, pt2):
     return cross(v1, v2)
 
 def check_in_segment_range(pt, segment):
-    """ Test whether *pt* is within the lon/lat range of *segment* """
-    lon_1 = unroll_deg(segment[0][0])
-    lon_2 = unroll_deg(segment[1][0])
-
-    # check longitude difference. if it's very small and latitude difference is
-    # larger, go to startegy 2
-    dlon = abs(reduce_deg(lon_2-lon_1))
-    if (dlon < 1e-8) and (abs(segment[0][1]-segment[1][1]) > dlon):
-        # strategy 2
-        return (abs((pt[0]+360)%360 - lon_1) < 180) and \
-               (segment[0][1] <= pt[1] <= segment[1][1])
-    else:
-        # strategy 1
-        return isbetween_circular(pt[0], lon_1, lon_2)
+    """ Test whether *pt* is on the great circle arc *segment* """
+    v = sph2cart(*pt)
+    v1 = sph2cart(*segment[0])
+    v2 = sph2cart(*segment[1])
+    n = cross(v1, v2)
+    nn = sqrt(dot(n, n))
+    if nn < 1e-14:
+        return max(abs(a-b) for a, b in zip(v, v1)) < 1e-12
+    return abs(dot(v, n)) <= 1e-10*nn + 1e-15 and \
+           dot(cross(v1, v), n) >= -1e-12*nn and \
+           dot(cross(v, v2), n) >= -1e-12*nn and \
+           dot(v, v1) + dot(v, v2) > 0
 
 def intersection_spherical(segment1, segment2):
     """ compute the intersection between two great circle segments on a sphere
@@ -160,9 +154,22 @@ def intersection_spherical(segment1, segment2):
     segment1, segment2 : tuple of tuples
         Tuples of the form ((x1, y1), (x2, y2)) describing line segements
     """
+    segment1 = [pt[:2] for pt in segment1]
+    segment2 = [pt[:2] for pt in segment2]
+
+    # shared endpoints, and segments of the same great circle
+    for pt in segment1:
+        if check_in_segment_range(pt, segment2):
+            return tuple(pt)
+    for pt in segment2:
+        if check_in_segment_range(pt, segment1):
+            return tuple(pt)
+
     gc1 = eulerpole(*segment1)
     gc2 = eulerpole(*segment2)
     n = cross(gc1, gc2)
+    if dot(n, n) <= 1e-24*dot(gc1, gc1)*dot(gc2, gc2):
+        raise NoIntersection()
     lon, lat = cart2sph(*n)
     lon_antipodal = (lon+360)%360-180
 
-- 
2.43.0


From 039c10f971a36f22c5b1a16a24c6cb21f229c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 039/142] fix: intersections of geographical geometries and of
 geometries in different coordinate systems

---
 karta/vector/geometry.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e2a2805..d818d4c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -27,7 +27,7 @@ from . import table
 from .. import geodesy
 from ..crs import Cartesian, CartesianCRS, GeographicalCRS
 from ..crs import SphericalEarth
-from ..errors import GeometryError, CRSError
+from ..errors import GeometryError, CRSError, NoIntersection
 
 class Geometry(object):
     """ Abstract base class for all geometry types """
@@ -688,11 +688,13 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses a spherical approximation.
         """
-        if _cintersection.bboxes_overlap(self.bbox(), other.bbox(self.crs)):
-            if isinstance(self.crs, GeographicalCRS):
-                return _cintersection.intersects_sph(self._vertices, other._vertices)
-            else:
-                return _cintersection.intersects(self._vertices, other._vertices)
+        if other.crs != self.crs:
+            other = type(other)(other.vertices(crs=self.crs), crs=self.crs)
+        if isinstance(self.crs, GeographicalCRS):
+            # bounding boxes are not comparable across the dateline
+            return _cintersection.intersects_sph(self._vertices, other._vertices)
+        elif _cintersection.bboxes_overlap(self.bbox(), other.bbox()):
+            return _cintersection.intersects(self._vertices, other._vertices)
         else:
             return False
 
@@ -710,15 +712,21 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses a spherical approximation.
         """
-        if isinstance(self.crs, CartesianCRS):
+        if other.crs != self.crs:
+            other = type(other)(other.vertices(crs=self.crs), crs=self.crs)
+        if not isinstance(self.crs, GeographicalCRS):
             interx = _cintersection.all_intersections(self._vertices, other._vertices)
             if not keep_duplicates:
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
         else:
-            interx = (geodesy.intersection_spherical(a, b)
-                            for a in self.segment_tuples
-                            for b in other.segment_tuples)
+            interx = []
+            for a in self.segment_tuples:
+                for b in other.segment_tuples:
+                    try:
+                        interx.append(geodesy.intersection_spherical(a, b))
+                    except NoIntersection:
+                        continue
             if not keep_duplicates:
                 interx = list(set(interx))
             return Multipoint(interx, crs=self.crs)
-- 
2.43.0


From 0becf7bff7d277fad442cb6d754bab0909be1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 040/142] fix: vertices of three-dimensional geometries in
 another coordinate system

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d818d4c..6971d37 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -414,14 +414,14 @@ class MultiVertexMixin(object):
         drop_z : bool, optional
             whether to discard third dimension for rank 3 geometries
         """
-        if (crs is None) or (crs is self.crs):
+        if (crs is None) or (crs == self.crs):
             if not drop_z:
                 return self._vertices.asarray()
             else:
                 return self._vertices.asarray()[:,:2]
         else:
             v = self._vertices.vectors(drop_z=drop_z)
-            vt = _reproject(v[:2], self.crs, crs)
+            vt = list(_reproject(v[:2], self.crs, crs))
             if len(v) == 3:
                 vt.append(v[2])
             return np.vstack(vt).T
-- 
2.43.0


From 1cfc9911ef5c1f56570bb365f0ba49fe6fd48778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 041/142] fix: R-tree searches are exact for double precision
 and three-dimensional coordinates

---
 karta/vector/rtree.pyx | 71 +++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index 51648b3..5c5b3ed 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -1,4 +1,9 @@
 """ Cython wrapper for rtree """
+from libc.math cimport INFINITY
+from libc.stdlib cimport free
+
+cdef extern from "math.h":
+    float nextafterf(float, float)
 
 cdef extern from "rtree.h":
 
@@ -30,19 +35,27 @@ cdef extern from "rtree.h":
     Bbox* rt_new_bbox()
     void rt_free(Node*)
     void print_bbox(Bbox*)
-    Pool *rt_search_within(Node*, Bbox*, int)
     Pool *rt_search_overlapping(Node*, Bbox*, int)
 
     char *pool_pop(Pool*, int)
     void pool_destroy(Pool*)
 
+cdef void round_outward(Bbox* bb, double xmin, double ymin, double xmax, double ymax):
+    """ Set *bb* to a single precision box that covers the given one. """
+    bb.xmin = nextafterf(<float> xmin, -INFINITY)
+    bb.ymin = nextafterf(<float> ymin, -INFINITY)
+    bb.xmax = nextafterf(<float> xmax, INFINITY)
+    bb.ymax = nextafterf(<float> ymax, INFINITY)
+
 cdef class RTree:
     cdef int count
     cdef Node* root
+    cdef list boxes
 
     def __init__(self, list geometries, maxchildren=50):
         self.root = NULL
-        cdef int i = 0
+        self.boxes = []
+        cdef int i = 0, n = 0
         cdef object geom
         cdef Node* root
 
@@ -52,11 +65,10 @@ cdef class RTree:
                 raise AttributeError("cannot construct R-tree index from items "
                                      "missing a `bbox` attribute")
             _bb = geom.bbox()
+            n = len(_bb) // 2
+            self.boxes.append((_bb[0], _bb[1], _bb[n], _bb[n+1]))
             bb = rt_new_bbox()
-            bb.xmin = _bb[0]
-            bb.ymin = _bb[1]
-            bb.xmax = _bb[2]
-            bb.ymax = _bb[3]
+            round_outward(bb, _bb[0], _bb[1], _bb[n], _bb[n+1])
             root = rt_insert(root, bb, i)
             i += 1
 
@@ -70,40 +82,41 @@ cdef class RTree:
 
     @property
     def bbox(self):
-        return (self.root.bbox.xmin, self.root.bbox.ymin,
-                self.root.bbox.xmax, self.root.bbox.ymax)
+        return (min([bb[0] for bb in self.boxes]), min([bb[1] for bb in self.boxes]),
+                max([bb[2] for bb in self.boxes]), max([bb[3] for bb in self.boxes]))
 
     def search_within(self, bbox, int max_results=-1):
         """ Return a list of geometries that are within a bounding box. """
-        cdef Pool* result
-        cdef Bbox* bb = rt_new_bbox()
         cdef list out = []
-
-        bb.xmin = bbox[0]
-        bb.ymin = bbox[1]
-        bb.xmax = bbox[2]
-        bb.ymax = bbox[3]
-
-        result = rt_search_within(self.root, bb, max_results)
-        while result.count != 0:
-            out.append((<int*> pool_pop(result, result.count-1))[0])
-        pool_destroy(result)
-        return out
+        for i in self._candidates(bbox):
+            bb = self.boxes[i]
+            if (bbox[0] <= bb[0]) and (bb[2] <= bbox[2]) and \
+                    (bbox[1] <= bb[1]) and (bb[3] <= bbox[3]):
+                out.append(i)
+        return out if max_results < 0 else out[:max_results]
 
     def search_overlapping(self, bbox, int max_results=-1):
-        """ Return a list of geometries that are within a bounding box. """
+        """ Return a list of geometries that overlap a bounding box. """
+        cdef list out = []
+        for i in self._candidates(bbox):
+            bb = self.boxes[i]
+            if (bbox[0] <= bb[2]) and (bb[0] <= bbox[2]) and \
+                    (bbox[1] <= bb[3]) and (bb[1] <= bbox[3]):
+                out.append(i)
+        return out if max_results < 0 else out[:max_results]
+
+    def _candidates(self, bbox):
+        """ Return a sorted list of geometries that overlap a bounding box to
+        the precision of the index. """
         cdef Pool* result
         cdef Bbox* bb = rt_new_bbox()
         cdef list out = []
 
-        bb.xmin = bbox[0]
-        bb.ymin = bbox[1]
-        bb.xmax = bbox[2]
-        bb.ymax = bbox[3]
-
-        result = rt_search_overlapping(self.root, bb, max_results)
+        round_outward(bb, bbox[0], bbox[1], bbox[2], bbox[3])
+        result = rt_search_overlapping(self.root, bb, -1)
         while result.count != 0:
             out.append((<int*> pool_pop(result, result.count-1))[0])
         pool_destroy(result)
+        free(bb)
+        out.sort()
         return out
-
-- 
2.43.0


From 663abd57c88a49366a3937b1eaf707fde1b41427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 042/142] fix: queries on multipart geometries keep order, data
 and coordinate system, and honour holes

---
 karta/vector/geometry.py | 55 ++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 6971d37..69ae53d 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1498,6 +1498,22 @@ class MultiVertexMultipartMixin(object):
             parts.append(part.apply_transform(M))
         return type(self)(parts, properties=self.properties, data=self.data, crs=self.crs)
 
+    def _subset(self, idxs):
+        """ Return a subset defined by indices. """
+        data = None
+        if len(self.data) != 0:
+            data = Table(data=[self.data[i] for i in idxs], fields=self.data._fields)
+        return type(self)([self._vertices[i] for i in idxs], data=data,
+                          properties=self.properties, crs=self.crs)
+
+    def _candidates(self, geom):
+        """ Return the indices of members that may touch *geom*. """
+        if isinstance(self.crs, GeographicalCRS) or geom.crs != self.crs:
+            # great circles and reprojected lines may leave the bounding boxes
+            # of their vertices
+            return range(len(self))
+        return self.rtree.search_overlapping(geom.bbox())
+
     def within_bbox(self, bbox, max_results=-1):
         """ Return Multipart geometry representing member geometries that are
         contained by a bounding box.
@@ -1508,7 +1524,7 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_within(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return self._subset(indices)
 
     def touching_bbox(self, bbox, max_results=-1):
         """ Return Multipart geometry representing member geometries that touch
@@ -1520,7 +1536,7 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_overlapping(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return self._subset(indices)
 
     def touching(self, geom):
         """ Return a Multipart geometry representing member geometries that
@@ -1536,22 +1552,20 @@ class MultiVertexMultipartMixin(object):
         Returns
         -------
         """
-        indices = self.rtree.search_overlapping(geom.bbox(self.crs))
         results = []
         if isinstance(geom, Line):
-            for i in indices:
-                test_geom = self[i]
-                if geom.intersects(test_geom):
-                    results.append(test_geom)
+            for i in self._candidates(geom):
+                if _boundaries_intersect(geom, self[i]):
+                    results.append(i)
         elif isinstance(geom, Polygon):
-            for i in indices:
+            for i in self._candidates(geom):
                 test_geom = self[i]
                 pt = test_geom[0]
-                if geom.contains(pt) or geom.intersects(test_geom):
-                    results.append(test_geom)
+                if geom.contains(pt) or _boundaries_intersect(geom, test_geom):
+                    results.append(i)
         else:
             raise TypeError("argument must be Line or Polygon")
-        return type(self)(results)
+        return self._subset(results)
 
     def within(self, geom):
         """ Return a Multipart geometry representing member geometries
@@ -1563,14 +1577,17 @@ class MultiVertexMultipartMixin(object):
         """
         if not isinstance(geom, Polygon):
             raise TypeError("argument must be Polygon")
-        indices = self.rtree.search_overlapping(geom.bbox(crs=self.crs))
         results = []
-        for i in indices:
+        for i in self._candidates(geom):
             test_geom = self[i]
             pt = test_geom[0]
-            if geom.contains(pt) and not geom.intersects(test_geom):
-                results.append(test_geom)
-        return type(self)(results)
+            if geom.contains(pt) and not _boundaries_intersect(geom, test_geom):
+                if isinstance(test_geom, Polygon) and \
+                        any(test_geom.contains(sub[0]) for sub in geom.subs):
+                    # surrounds a hole
+                    continue
+                results.append(i)
+        return self._subset(results)
 
 class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                 ShapefileOutMixin):
@@ -1844,6 +1861,12 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             ret.append(poly)
         return ret
 
+def _boundaries_intersect(a, b):
+    """ Return whether the boundaries of two Lines or Polygons, including those
+    of sub-polygons, intersect. """
+    return any(p.intersects(q) for p in itertools.chain([a], getattr(a, "subs", ()))
+                               for q in itertools.chain([b], getattr(b, "subs", ())))
+
 def sign(a):
     """ Return the sign of *a* """
     if a == 0.0:
-- 
2.43.0


From 19a9c091a0b56c57456ba5ebe3e9014d999ae0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:44 +0000
Subject: [PATCH 043/142] fix: R-tree follows the original parent after
 splitting it

---
 karta/vector/rtree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 0fac23d..7b566b3 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -291,16 +291,17 @@ int rt_adjust_tree(Node *node, Node *sibling, Node **outnode, Node **outsibling)
 
         // if sibling provided, add it to parent
         if (sibling != NULL) {
-            addretval = add_node(node->parent, sibling);
+            addretval = add_node(parent, sibling);
             if (addretval == 1) {
-                sibling = rt_split(node->parent);
+                // may move node to a different parent
+                sibling = rt_split(parent);
             } else {
                 sibling = NULL;
             }
         }
 
         // propagate upward
-        node = node->parent;
+        node = parent;
     }
 
     if (sibling != NULL) {
-- 
2.43.0


From 0231abff20287b10f26109d5aa6988e6b13b2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 044/142] fix: convex hulls of points that are collinear,
 repeated, around a pole or across the dateline

---
 karta/vector/convexhull.pyx | 201 ++++++++++++------------------------
 1 file changed, 66 insertions(+), 135 deletions(-)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index a72fd21..0ecb420 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -1,151 +1,82 @@
-from libc.math cimport M_PI, M_PI_2
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
-from vectorgeo cimport Vector2, azimuth, azimuth_sph, dist2, dist_sph
+from vectorgeo cimport Vector2, Vector3, sph2cart, dot3
+from libc.math cimport sqrt
 
 cdef bool isleft(Vector2 pt0, Vector2 pt1, Vector2 pt2):
     """ Indicate whether pt0 is to the left of a segment between pt1 and pt2.
     """
     return (pt1.x-pt0.x)*(pt2.y-pt0.y) - (pt1.y-pt0.y)*(pt2.x-pt0.x) > 0.0
 
-cdef bool isleft_sph(Vector2 pt0, Vector2 pt1, Vector2 pt2):
-    cdef double az, az_pt, daz
-    az = azimuth_sph(pt1, pt2)
-    az_pt = azimuth_sph(pt1, pt0)
-    daz = ((az-az_pt) + M_PI) % (2*M_PI) - M_PI
-    return daz > 0
+cdef list halfhull(list coords, list order):
+    """ Return the indices from *order* that are on the right hand side of
+    *coords*. """
+    cdef list hull = []
+    for i in order:
+        while len(hull) > 1 and \
+                not isleft(Vector2(coords[hull[-2]][0], coords[hull[-2]][1]),
+                           Vector2(coords[hull[-1]][0], coords[hull[-1]][1]),
+                           Vector2(coords[i][0], coords[i][1])):
+            hull.pop()
+        hull.append(i)
+    return hull
+
+cdef list planarhull(list coords):
+    """ Return the indices of the convex hull of a list of coordinate tuples,
+    counterclockwise from the leftmost (upper) point. """
+    cdef list order = []
+    cdef int i
+    for i in sorted(range(len(coords)), key=coords.__getitem__):
+        # drop duplicates
+        if len(order) == 0 or coords[i] != coords[order[-1]]:
+            order.append(i)
+    if len(order) < 2:
+        return order
+
+    cdef list hull = halfhull(coords, order)[:-1] + halfhull(coords, order[::-1])[:-1]
+    if coords[hull[-1]][0] == coords[hull[0]][0]:
+        hull = hull[-1:] + hull[:-1]
+    return hull
 
 def convexhull(CoordString cs):
     """ Return the convex hull for coordinates on a plane. """
-    # Find the leftmost (upper) point
-    cdef int n = len(cs)
-    if cs.ring:
-        n += 1
-    cdef int ileftmost = 0
-    cdef double x, xleftmost = cs.getX(0)
-    cdef int i = 1
-
-    while i != n:
-        x = cs.getX(i)
-        if x < xleftmost:
-            xleftmost = x
-            ileftmost = i
-        elif x == xleftmost and (cs.getY(i) > cs.getY(ileftmost)):
-            ileftmost = i
-        i += 1
-
-    # Sort CCW relative to pt0
-    cdef list azimuth_indices = []
-    cdef double az, y
-    cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
-    i = 0
-    while i != n:
-        if i == ileftmost:
-            i += 1
-            continue
-        az = M_PI_2 - azimuth(leftmost, Vector2(cs.getX(i), cs.getY(i)))
-        azimuth_indices.append((az, i))
-        i += 1
-    azimuth_indices.sort()
-
-    # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
-    i = 1
-    while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
-            if dist2(leftmost, ipt) > dist2(leftmost, lastpt):
-                # replace last index with that of the current vertex
-                indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
-        else:
-            indices.append(azimuth_indices[i][1])
-        i += 1
-
-    # Initialize and scan for convex hull
-    if len(indices) == 1:
-        return [ileftmost, indices[0]]
-
-    cdef list hull_indices = [ileftmost, indices[0], indices[1]]
-    if len(indices) == 2:
-        return hull_indices
-
-    for i in indices[2:]:
-        while not isleft(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
-                         Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
-                         Vector2(cs.getX(i), cs.getY(i))):
-            hull_indices.pop()
-        hull_indices.append(i)
-    return hull_indices
+    cdef int i
+    cdef list coords = []
+    for i in range(len(cs)):
+        coords.append((cs.getX(i), cs.getY(i)))
+    return planarhull(coords)
 
 def convexhull_sph(CoordString cs):
-    """ Return the convex hull for coordinates on a sphere. """
-    # Find the leftmost (upper) point
-    cdef int n = len(cs)
-    if cs.ring:
-        n += 1
-    cdef int ileftmost = 0
-    cdef double x, xleftmost = cs.getX(0)
-    cdef int i = 1
-
-    while i != n:
-        x = cs.getX(i)
-        if x < xleftmost:
-            xleftmost = x
-            ileftmost = i
-        elif x == xleftmost and (cs.getY(i) > cs.getY(ileftmost)):
-            ileftmost = i
-        i += 1
-
-    # Sort CCW relative to pt0
-    cdef list azimuth_indices = []
-    cdef double az, y
-    cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
-    i = 0
-    while i != n:
-        if i == ileftmost:
-            i += 1
-            continue
-        az = M_PI_2 - azimuth_sph(leftmost, Vector2(cs.getX(i), cs.getY(i)))
-        azimuth_indices.append((az, i))
-        i += 1
-    azimuth_indices.sort()
-
-    # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
-    i = 1
-    while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
-            if dist_sph(leftmost, ipt) > dist_sph(leftmost, lastpt):
-                # replace last index with that of the current vertex
-                indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
-        else:
-            indices.append(azimuth_indices[i][1])
-        i += 1
-
-    # Initialize and scan for convex hull
-    if len(indices) == 1:
-        return [ileftmost, indices[0]]
-
-    cdef list hull_indices = [ileftmost, indices[0], indices[1]]
-    if len(indices) == 2:
-        return hull_indices
-
-    for i in indices[2:]:
-        while not isleft_sph(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
-                             Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
-                             Vector2(cs.getX(i), cs.getY(i))):
-            hull_indices.pop()
-        hull_indices.append(i)
-    return hull_indices
+    """ Return the convex hull for coordinates on a sphere, which must fit in a
+    hemisphere. """
+    cdef int i, n = len(cs)
+    cdef Vector3 p, up, east, north
+    cdef double norm
+    cdef list coords = []
+
+    # use a gnomonic projection, in which great circles are straight lines
+    up = Vector3(0.0, 0.0, 0.0)
+    for i in range(n):
+        p = sph2cart(Vector2(cs.getX(i), cs.getY(i)))
+        up = Vector3(up.x + p.x, up.y + p.y, up.z + p.z)
+
+    norm = sqrt(up.x*up.x + up.y*up.y)
+    if norm > 1e-8 * n:
+        east = Vector3(-up.y/norm, up.x/norm, 0.0)
+    else:
+        east = Vector3(1.0, 0.0, 0.0)
+    north = Vector3(up.y*east.z - up.z*east.y,
+                    up.z*east.x - up.x*east.z,
+                    up.x*east.y - up.y*east.x)
+    norm = sqrt(dot3(north, north))
+
+    for i in range(n):
+        p = sph2cart(Vector2(cs.getX(i), cs.getY(i)))
+        if dot3(p, up) <= 0.0:
+            raise ValueError("convex hull requires points to be in a hemisphere")
+        coords.append((dot3(p, east) / dot3(p, up),
+                       dot3(p, north) / norm / dot3(p, up)))
+    return planarhull(coords)
 
 def convexhull_simple(CoordString cs):
     """ Return the convex hull for a simple polyline on a plane. """
-- 
2.43.0


From 57b934042c12a4f90d866f8fdd34d1e8f9e0d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 045/142] fix: nearest position on short, steep and zero-length
 segments and far from long arcs

---
 karta/vector/vectorgeo.pyx | 67 +++++++++++++-------------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 83e5ef4..8b7880b 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -203,52 +203,26 @@ def pt_nearest_planar(double x, double y,
     """
 
     cdef double u0, u1, v0, v1
-    cdef Vector2 u_on_v, u_int, pt, pt0, pt1
+    cdef Vector2 pt, pt0, pt1, pt_int
     cdef Vector2 u, v
+    cdef double f, vv
 
     pt = Vector2(x, y)
     pt0 = Vector2(endpt0_0, endpt0_1)
     pt1 = Vector2(endpt1_0, endpt1_1)
 
-    u = Vector2(x - pt0.x, y - pt0.y)
+    u = Vector2(pt.x - pt0.x, pt.y - pt0.y)
     v = Vector2(pt1.x - pt0.x, pt1.y - pt0.y)
-    u_on_v = proj2(u, v)
-    u_int = Vector2(u_on_v.x + pt0.x, u_on_v.y + pt0.y)
-
-    # Determine whether u_int is inside the segment
-    # Otherwise return the nearest endpoint
-    if fabs(pt0.x - pt1.x) < 1e-4:  # Segment is near vertical
-        if u_int.y > fmax(pt0.y, pt1.y):
-            if pt0.y > pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        elif u_int.y < fmin(pt0.y, pt1.y):
-            if pt0.y < pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
+    vv = dot2(v, v)
 
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
-
-    else:
-
-        if u_int.x > fmax(pt0.x, pt1.x):
-            if pt0.x > pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        elif u_int.x < fmin(pt0.x, pt1.x):
-            if pt0.x < pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
+    # Position along the segment, limited to its endpoints
+    f = dot2(u, v) / vv if vv != 0.0 else 0.0
+    if f <= 0.0:
+        return ((pt0.x, pt0.y), dist2(pt0, pt))
+    elif f >= 1.0:
+        return ((pt1.x, pt1.y), dist2(pt1, pt))
+    pt_int = Vector2(pt0.x + f*v.x, pt0.y + f*v.y)
+    return ((pt_int.x, pt_int.y), dist2(pt_int, pt))
 
 # Currently unused, but could be employed to optimize pyproj function calls
 ctypedef tuple (*fwd_t)(double, double, double, double)
@@ -285,14 +259,19 @@ def pt_nearest_proj(object fwd, object inv, tuple pt, double[:] endpt0, double[:
 
     # Detect whether the nearest point is at an endpoint
     cdef double grad0, grad1, d
+    if L == 0.0:
+        d = _along_distance(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], 0, 0)
+        return (endpt0[0], endpt0[1]), d
     grad0 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, 0, 1e-7*L)
     grad1 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, L, 1e-7*L)
-    if grad0 > 0:
-        d = _along_distance(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, 0)
-        return endpt0, d
-    elif grad1 < 0:
-        d = _along_distance(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, L)
-        return endpt1, d
+    cdef double d0, d1
+    if grad0 > 0 or grad1 < 0:
+        d0 = _along_distance(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, 0)
+        d1 = _along_distance(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, L)
+        if grad0 > 0 and (grad1 >= 0 or d0 <= d1):
+            return (endpt0[0], endpt0[1]), d0
+        else:
+            return (endpt1[0], endpt1[1]), d1
 
     # Bisection iteration
     cdef double x0 = 0.0, x1 = 1.0, xm = 0.0, xn = 0.0, yn = 0.0
-- 
2.43.0


From 92f687838c44a82bbddd8aeac4cd55988bbc49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 046/142] fix: distances to the closing edge of a polygon, to
 any part of a line, and between different ranks

---
 karta/vector/geometry.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 69ae53d..e9086a8 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -565,7 +565,10 @@ class MultiVertexMixin(object):
     def flat_distances_to(self, pt):
         """ Return the "flat Earth" distance from each vertex to a point. """
         A = self._vertices.asarray()
-        P = np.tile(np.array(pt._vertex), (A.shape[0], 1))
+        P = np.array(pt.vertex(self.crs))
+        rank = min(A.shape[1], len(P))
+        A = A[:,:rank]
+        P = np.tile(P[:rank], (A.shape[0], 1))
         d = np.sqrt(np.sum((A-P)**2, 1))
         return d
 
@@ -746,8 +749,8 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
         ptvertex = point.vertex(crs=self.crs)
-        segments = zip(self._vertices.slice(0, -1).asarray(),
-                       self._vertices.slice(1, 0).asarray())
+        segments = ((np.array(a[:2]), np.array(b[:2]))
+                    for (a, b) in self.segment_tuples)
 
         if isinstance(self.crs, CartesianCRS):
             func = _cvectorgeo.pt_nearest_planar
@@ -812,8 +815,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
-        return all(distance >= seg.shortest_distance_to(point)
-                    for seg in self.segments)
+        return distance >= self.shortest_distance_to(point)
 
     def crosses_dateline(self):
         """ Return a boolean that indicates whether any segment crosses the
-- 
2.43.0


From 58caf92b2152ff1db49902df371e39446224fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 047/142] fix: geodetic azimuth along a meridian

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e9086a8..c7a3afc 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -173,7 +173,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         else:
             lon0, lat0 = self.crs.project(self.x, self.y, inverse=True)
             lon1, lat1 = other.crs.project(other.x, other.y, inverse=True)
-            if (lon0 != lon1) or (lat0 == lat1):
+            if (lon0 != lon1) or (lat0 != lat1):
                 az, _, _ = self.crs.inverse(lon0, lat0, lon1, lat1)
         return az
 
-- 
2.43.0


From 0cff28e3c44fbde9184ff6204adce722cdca4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:13 +0000
Subject: [PATCH 048/142] fix: bias of the nearest position on long geodesics

---
 karta/vector/vectorgeo.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 8b7880b..2a9f507 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -241,8 +241,8 @@ cdef double _along_distance_gradient(object fwd, object inv, double x0, double y
         double xp, double yp, double az, double f, double dx):
     """ Return the numerical gradient in terms of f of _along_distance """
     cdef double d1, d2
-    d1 = _along_distance(fwd, inv, x0, y0, xp, yp, az, f)
-    d2 = _along_distance(fwd, inv, x0, y0, xp, yp, az, f+dx)
+    d1 = _along_distance(fwd, inv, x0, y0, xp, yp, az, f-0.5*dx)
+    d2 = _along_distance(fwd, inv, x0, y0, xp, yp, az, f+0.5*dx)
     return (d2-d1)/dx
 
 def pt_nearest_proj(object fwd, object inv, tuple pt, double[:] endpt0, double[:] endpt1,
-- 
2.43.0


From dfc9497ed972c52bb13eb9b1ec728204093ddac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:08 +0000
Subject: [PATCH 049/142] fix: table made from a number

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index e18aaa7..90c016e 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -37,7 +37,7 @@ class Table(Sequence):
                 # Data is Table-like
                 self._fields = data._fields
                 self._data = list(data._data)
-            elif len(data) == 0:
+            elif hasattr(data, "__len__") and len(data) == 0:
                 # Data is empty dict or empty iterable
                 self._fields = ()
                 self._data = []
-- 
2.43.0


From 814ce455c4a19305d177a1b15786ef09b9dd5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:08 +0000
Subject: [PATCH 050/142] fix: JSON encoding of unsigned and boolean numpy
 values

---
 karta/vector/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 90c016e..46aba64 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -240,7 +240,10 @@ class NumpyAwareJSONEncoder(json.JSONEncoder):
     def default(self, o):
         if not hasattr(o, "dtype") or (hasattr(o, "__len__") and (len(o) != 1)):
             return json.JSONEncoder.default(self, o)
-        elif o.dtype in ("int8", "int16", "int32", "int64"):
+        elif o.dtype == "bool":
+            return bool(o)
+        elif o.dtype in ("int8", "int16", "int32", "int64",
+                         "uint8", "uint16", "uint32", "uint64"):
             return int(o)
         elif o.dtype in ("float16", "float32", "float64", "float128"):
             return float(o)
-- 
2.43.0


From e3dd578de9bedb4e464d13ca1fcac61f63be4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:35 +0000
Subject: [PATCH 051/142] fix: type checking of tables

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 46aba64..3fdc24c 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -72,7 +72,7 @@ class Table(Sequence):
 
     def _validatetypes(self):
         for i,t in enumerate(self.types):
-            if not all(isinstance(t, d[i]) for d in self._data):
+            if not all(isinstance(d[i], t) for d in self._data):
                 raise TypeError("data contains item ({0}) not of type {1}" \
                                 .format(self._fields[i], t))
         return
-- 
2.43.0


From d66ae9dd82b940d73feb97fe897f3c65ce907bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 052/142] fix: geometries do not share their properties with
 the geometry or dictionary they were made from

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index c7a3afc..554d11b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -35,7 +35,7 @@ class Geometry(object):
     def __init__(self, properties=None, crs=Cartesian):
         self.crs = crs
         if isinstance(properties, dict):
-            self.properties = properties
+            self.properties = dict(properties)
         elif properties is not None:
             raise TypeError("properties must be a dictionary")
         else:
-- 
2.43.0


From bab523c2ec8ba2e7867d8b19a3074ed4df9d1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 053/142] fix: comparison and hash of multipart geometries

---
 karta/vector/geometry.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 554d11b..0720aaf 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -370,7 +370,7 @@ class MultiVertexBase(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
+        hd = _vertices_hash(self._vertices)
         hc = hash(str(self.crs))
         return ht + (hd << 1) + hd + hc
 
@@ -1222,8 +1222,7 @@ class Multipart(Geometry):
     def __eq__(self, other):
         try:
             return (self._geotype == other._geotype) and \
-                   (len(self._vertices) == len(other._vertices)) and \
-                   np.all(np.equal(self._vertices, other._vertices)) and \
+                   _vertices_equal(self._vertices, other._vertices) and \
                    (self.data == other.data) and \
                    (self.properties == other.properties) and \
                    (self.crs == other.crs)
@@ -1235,7 +1234,7 @@ class Multipart(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
+        hd = _vertices_hash(self._vertices)
         hc = hash(str(self.crs))
         return ht + (hd << 1) + hd + hc
 
@@ -1869,6 +1868,21 @@ def _boundaries_intersect(a, b):
     return any(p.intersects(q) for p in itertools.chain([a], getattr(a, "subs", ()))
                                for q in itertools.chain([b], getattr(b, "subs", ())))
 
+def _vertices_equal(a, b):
+    """ Return whether two (nested lists of) CoordStrings are equal. """
+    if isinstance(a, CoordString) and isinstance(b, CoordString):
+        return np.array_equal(a.asarray(), b.asarray())
+    elif isinstance(a, list) and isinstance(b, list):
+        return len(a) == len(b) and all(_vertices_equal(u, v) for u, v in zip(a, b))
+    return False
+
+def _vertices_hash(a):
+    """ Return a hash of a (nested list of) CoordStrings. """
+    if isinstance(a, CoordString):
+        # adding zero makes the bytes of negative and positive zero equal
+        return hash((a.asarray() + 0.0).tobytes())
+    return hash(tuple(_vertices_hash(v) for v in a))
+
 def sign(a):
     """ Return the sign of *a* """
     if a == 0.0:
-- 
2.43.0


From 40a920d24c51792c21ca2ab6213ce741a692b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 054/142] fix: polygons keep their sub-polygons when
 transformed

---
 karta/vector/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0720aaf..4e1a147 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -358,8 +358,8 @@ class MultiVertexBase(Geometry):
     def __eq__(self, other):
         try:
             return (self._geotype == other._geotype) and \
-                   (len(self._vertices) == len(other._vertices)) and \
-                   np.all(np.equal(self._vertices, other._vertices)) and \
+                   _vertices_equal(self._vertices, other._vertices) and \
+                   (getattr(self, "subs", None) == getattr(other, "subs", None)) and \
                    (self.properties == other.properties) and \
                    (self.crs == other.crs)
         except (AttributeError, TypeError, ValueError):
@@ -1052,6 +1052,11 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         subset = Line(vertices, properties=self.properties, crs=self.crs)
         return subset
 
+    def apply_transform(self, M):
+        poly = super(Polygon, self).apply_transform(M)
+        poly.subs = [sub.apply_transform(M) for sub in self.subs]
+        return poly
+
     def isclockwise(self):
         """ Return whether polygon winds clockwise around its interior. """
         s = sum((seg[1][0] - seg[0][0]) * (seg[1][1] + seg[0][1])
-- 
2.43.0


From 4a130ff703519c8b463c844159d4a3167140aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 055/142] fix: lines can be used after extending them

---
 karta/vector/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 4e1a147..3e66f94 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -873,13 +873,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         """
         if len(self._vertices[0]) != len(other._vertices[0]):
             raise ValueError("Rank mismatch ({0} != "
-                    "{1})".format(self._vertices.shape[1],
-                                  other._vertices.shape[1]))
+                    "{1})".format(len(self._vertices[0]),
+                                  len(other._vertices[0])))
         if self._geotype != other._geotype:
             raise TypeError("Geometry mismatch ({0} != "
                     "{1})".format(self._geotype, other._geotype))
 
-        self._vertices = np.vstack([self._vertices, other._vertices])
+        self._vertices = CoordString(np.vstack([self.vertices(),
+                                                other.vertices(self.crs)]))
         self._cache = {}
         return self
 
-- 
2.43.0


From 0245edf41f2945e119432f47671ef20bd7077ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 056/142] fix: multipart geometries with data given as a list

---
 karta/vector/geometry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3e66f94..6af576f 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1212,6 +1212,11 @@ class Multipart(Geometry):
                 self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
+        elif not hasattr(data, "items"):
+            if len(data) != len(inputs):
+                raise ValueError("length of `data` ({n}) not equal to length "
+                                 "of inputs ({m})".format(n=len(data), m=len(inputs)))
+            self.data = Table(data)
         else:
             for k, v in data.items():
                 if len(v) != len(inputs):
-- 
2.43.0


From 42e8ee900f54dba223d21ec092258f4ce9020ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 057/142] fix: transformed multipart geometries keep their data
 and sub-polygons

---
 karta/vector/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 6af576f..a9c0ae0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1505,10 +1505,11 @@ class MultiVertexMultipartMixin(object):
             M = N
         elif M.shape != (3, 4):
             raise ValueError("invalid affine matrix size: {0}".format(M.shape))
-        parts = []
-        for part in self:
-            parts.append(part.apply_transform(M))
-        return type(self)(parts, properties=self.properties, data=self.data, crs=self.crs)
+        def transform(v):
+            if isinstance(v, CoordString):
+                return Line(v).apply_transform(M).vertices()
+            return [transform(part) for part in v]
+        return type(self)(transform(self._vertices), properties=self.properties, data=self.data, crs=self.crs)
 
     def _subset(self, idxs):
         """ Return a subset defined by indices. """
-- 
2.43.0


From b337339fbc13a900bff9f0842a3c708c5ff64ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 058/142] fix: three-dimensional multipart geometries in
 another coordinate system or merged with two-dimensional ones

---
 karta/vector/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index a9c0ae0..5ffdc91 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1709,7 +1709,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         else:
             vertices = []
             for line in self._vertices:
-                line_vertices = [_reproject(v[:2], self.crs, crs) for v in line]
+                line_vertices = [tuple(_reproject(v[:2], self.crs, crs)) + tuple(v[2:])
+                                 for v in line]
                 vertices.append(np.array(line_vertices))
             return vertices
 
@@ -1823,7 +1824,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         rankmax = max(arr.shape[1] for arr in itertools.chain(*vertices))
         if rankmin != rankmax:
             for i, v in enumerate(vertices):
-                vertices[i] = [ring[:,:imin] for ring in vertices]
+                vertices[i] = [ring[:,:rankmin] for ring in v]
 
         data = table.merge(mappings)
         return Multipolygon(vertices, data=data, crs=crs)
@@ -1859,7 +1860,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for poly_vertices in self._vertices:
                 poly = []
                 for ring_vertices in poly_vertices:
-                    poly.append(np.array([_reproject(v[:2], self.crs, crs)
+                    poly.append(np.array([tuple(_reproject(v[:2], self.crs, crs)) + tuple(v[2:])
                                           for v in ring_vertices]))
                 vertices.append(poly)
             return vertices
-- 
2.43.0


From bb1a1a453d0ff736c4a8593417a4dbb73127e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:52 +0000
Subject: [PATCH 059/142] fix: lines and polygons made from points in another
 coordinate system

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5ffdc91..2bc0422 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -350,9 +350,9 @@ class MultiVertexBase(Geometry):
         elif not isinstance(vertices[0], Point):
             self._vertices = CoordString(_flatten(vertices), ring=ring)
         else:
-            self._vertices = CoordString([point._vertex for point in vertices], ring=ring)
             if "crs" not in kwargs:
                 self.crs = vertices[0].crs
+            self._vertices = CoordString([point.vertex(self.crs) for point in vertices], ring=ring)
         return
 
     def __eq__(self, other):
-- 
2.43.0


From 0e73e2999d3a9dfb8344102d8a7be828face85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:47 +0000
Subject: [PATCH 060/142] fix: three-dimensional points in another coordinate
 system keep their height

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 2bc0422..dd3761c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -137,7 +137,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         if crs is None or crs==self.crs:
             return self._vertex
         else:
-            return _reproject((self.x, self.y), self.crs, crs)
+            return tuple(_reproject((self.x, self.y), self.crs, crs)) + self._vertex[2:]
 
     def azimuth(self, other, projected=True):
         """ Returns the compass azimuth from self to other in degrees, measured
-- 
2.43.0


From 109152a85f3dd2e0b36da97fa5a3af089e4e676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 061/142] fix: lines and polygons accept any integer type as
 index

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index dd3761c..c0d0dae 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -375,7 +375,7 @@ class MultiVertexBase(Geometry):
         return ht + (hd << 1) + hd + hc
 
     def __getitem__(self, key):
-        if isinstance(key, (int, np.int64)):
+        if isinstance(key, numbers.Integral):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
             verts = [self._vertices[i] for i in range(*key.indices(len(self._vertices)))]
-- 
2.43.0


From f53e9085805df06f451e83868cc2f50442dfbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:05 +0000
Subject: [PATCH 062/142] fix: equal projected coordinate systems, and
 geometries in them, have equal hashes

---
 karta/crs.py             | 4 ++++
 karta/vector/geometry.py | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 6fe55ce..90c9ffc 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -278,6 +278,10 @@ class ProjectedCRS(CartesianCRS):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return hash((getattr(self._proj, "srs", 0),
+                     getattr(self._geod, "initstring", 0)))
+
     def project(self, x, y, inverse=False):
         return self._proj(x, y, inverse=inverse)
 
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index c0d0dae..5ad463b 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -102,7 +102,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
     def __hash__(self):
         ht = hash(self._geotype)
         hd = hash(self._vertex)
-        hc = hash(str(self.crs))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __add__(self, other):
@@ -371,7 +371,7 @@ class MultiVertexBase(Geometry):
     def __hash__(self):
         ht = hash(self._geotype)
         hd = _vertices_hash(self._vertices)
-        hc = hash(str(self.crs))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __getitem__(self, key):
@@ -1246,7 +1246,7 @@ class Multipart(Geometry):
     def __hash__(self):
         ht = hash(self._geotype)
         hd = _vertices_hash(self._vertices)
-        hc = hash(str(self.crs))
+        hc = hash(self.crs)
         return ht + (hd << 1) + hd + hc
 
     def __contains__(self, other):
-- 
2.43.0


From b774987f3fcd642d623792fa5bbdbcdd407000e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 063/142] fix: rings that repeat their first vertex at the end
 are not closed twice

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5ad463b..d748b77 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1035,7 +1035,8 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         """ Return vertices as a closed ring """
         # inefficient implementation
         vertices = [xy for xy in self._vertices]
-        vertices.append(vertices[0])
+        if len(vertices) < 2 or vertices[0] != vertices[-1]:
+            vertices.append(vertices[0])
         return CoordString(vertices)
 
     @property
@@ -1837,7 +1838,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             rings = []
             for ring in poly:
                 xys = [xy for xy in ring]
-                xys.append(ring[0])
+                if len(xys) < 2 or xys[0] != xys[-1]:
+                    xys.append(ring[0])
                 rings.append(CoordString(xys))
             vertices.append(rings)
         return vertices
-- 
2.43.0


From 9ad82f7e86cfd023abd584be71596cf5950ed90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 064/142] fix: GeoJSON output without a URN or forced WGS84
 coordinates

---
 karta/vector/_geojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 7e784ac..292b451 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -40,7 +40,7 @@ class GeoJSONOutMixin(object):
         if kwargs.get("urn", None) is not None:
             crs = crs_from_urn(kwargs["urn"])
         else:
-            crs = crs_from_karta(geoms[0].crs)
+            crs = crs_from_karta(geom.crs)
 
         if geom._geotype == "Point":
             g = picogeojson.Point(geom.vertex(), crs)
@@ -49,7 +49,7 @@ class GeoJSONOutMixin(object):
         elif geom._geotype == "Polygon":
             verts = [_as_nested_lists(geom.vertices_ring)]
             for sub in geom.subs:
-                verts.append(_as_nested_lists(sub.vertices()))
+                verts.append(_as_nested_lists(sub.vertices_ring))
             g = picogeojson.Polygon(verts, crs)
         elif geom._geotype == "Multipoint":
             g = picogeojson.MultiPoint(_as_nested_lists(geom.vertices()), crs)
-- 
2.43.0


From f63e251ba83b6e5f68d4056a972a5fc9e1928c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 065/142] fix: writing GeoJSON does not change the properties
 of the geometry

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 292b451..c8313f6 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -65,7 +65,7 @@ class GeoJSONOutMixin(object):
             for field in geom.data.fields:
                 data[field] = geom.d[field]
 
-        properties = geom.properties
+        properties = dict(geom.properties)
         properties.update(data)
         return picogeojson.Feature(g, properties, None, g.crs)
 
-- 
2.43.0


From 30b9009128897612bf8ae1b7c46f86aea53fa17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 066/142] fix: GeoJSON output of polygons in other coordinate
 systems keeps sub-polygons

---
 karta/vector/_geojson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index c8313f6..d411f3b 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -91,6 +91,9 @@ class GeoJSONOutMixin(object):
             kw = dict(properties=self.properties, crs=LonLatWGS84)
             if hasattr(self, "data"):
                 kw["data"] = self.data
+            if hasattr(self, "subs"):
+                kw["subs"] = [type(sub)(sub.vertices(crs=LonLatWGS84), crs=LonLatWGS84)
+                              for sub in self.subs]
             if hasattr(self, "vertices"):
                 vertices = self.vertices(crs=LonLatWGS84)
             else:
-- 
2.43.0


From 0c60b6a0c4875e29850296686f0abb4b23311274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 067/142] fix: GeoJSON output of numpy data and properties

---
 karta/vector/_geojson.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index d411f3b..19e2066 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -1,4 +1,6 @@
+import json
 import picogeojson
+from .table import NumpyAwareJSONEncoder
 from .utilities import _as_nested_lists
 from ..crs import LonLatWGS84
 
@@ -14,11 +16,17 @@ def crs_from_karta(crs):
         # NOTE: make sure CRS gets written to file by caller
         return {'type': 'link', 'properties': {'href': "", 'type': 'proj4'}}
 
+class NumpyAwareSerializer(picogeojson.Serializer):
+    """ Serializer that permits numpy numbers in coordinates and properties. """
+    def __call__(self, geom, indent=None):
+        return json.dumps(self.geojson_asdict(geom), indent=indent,
+                          cls=NumpyAwareJSONEncoder)
+
 class GeoJSONOutMixin(object):
     """ Mixin class to be added to geometry objects, adding geojson
     functionality.
     """
-    _serializer = picogeojson.Serializer(antimeridian_cutting=False, write_crs=True)
+    _serializer = NumpyAwareSerializer(antimeridian_cutting=False, write_crs=True)
 
     @staticmethod
     def _as_named_tuple(geom, **kwargs):
-- 
2.43.0


From d128743e78ca029ca7a07471439bb8494f24100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 068/142] fix: sub-polygons read from GeoJSON are polygons

---
 karta/vector/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 05411a2..e68ec5c 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -88,9 +88,9 @@ def read_geojson(f, crs=LonLatWGS84):
             kw.setdefault("data", {})
             kw["properties"].update(kw["data"])
             del kw["data"]
-            return geometry.Polygon(geom.coordinates[0],
-                                    subs=geom.coordinates[1:],
-                                    **kw)
+            subs = [geometry.Polygon(ring, crs=kw.get("crs", crs))
+                    for ring in geom.coordinates[1:]]
+            return geometry.Polygon(geom.coordinates[0], subs=subs, **kw)
         elif isinstance(geom, picogeojson.MultiPoint):
             return geometry.Multipoint(geom.coordinates, **kw)
         elif isinstance(geom, picogeojson.MultiLineString):
-- 
2.43.0


From 2b085e1c9341d8ec86fb8dfc00f67324ddf1d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 069/142] fix: GeoJSON properties that are null, or strings
 with as many letters as there are members

---
 karta/vector/read.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index e68ec5c..3d77d79 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -107,16 +107,13 @@ def read_geojson(f, crs=LonLatWGS84):
                                       picogeojson.MultiLineString,
                                       picogeojson.MultiPolygon)):
             n = len(feat.geometry.coordinates)
-            for k, v in feat.properties.items():
-                try:
-                    if len(v) == n:
-                        data[k] = v
-                    else:
-                        properties[k] = v
-                except TypeError:
+            for k, v in (feat.properties or {}).items():
+                if isinstance(v, (list, tuple)) and len(v) == n:
+                    data[k] = v
+                else:
                     properties[k] = v
         else:
-            properties.update(feat.properties)
+            properties.update(feat.properties or {})
         # if len(data) == 0:
         #     data = {}
         # else:
-- 
2.43.0


From 735489f925015e63a32eb77e19804684a2555aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 070/142] fix: from_shape uses the properties it is given

---
 karta/vector/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 3d77d79..f6c825a 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -18,7 +18,7 @@ from .. import errors
 def from_shape(obj, properties=None):
     """ Read a __geo_interface__ dictionary and return an appropriate karta
     object """
-    return _from_shape(obj.__geo_interface__, None)
+    return _from_shape(obj.__geo_interface__, properties)
 
 def _from_shape(d, properties):
     if d is None:
-- 
2.43.0


From e4328b85cde497e14b86fa5600442c1560b1e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 071/142] fix: geo interface of lines and polygons sets has
 their properties

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d748b77..08463c6 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1656,7 +1656,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
@@ -1786,7 +1787,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
-- 
2.43.0


From 55f34280d0016e31e3e7cde0573d14ec0e0de0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 072/142] fix: shapefiles are complete on disk when the writer
 returns

---
 karta/vector/_shp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4e3d21f..a807f72 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -244,8 +244,14 @@ def ogr_write(fnm, *objs):
             warnings.warn("appropriate DBF type for {} not found - skipping".format(k))
 
     # add geometries
-    for i, obj in enumerate(objs):
-        ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+    try:
+        for i, obj in enumerate(objs):
+            ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+    finally:
+        # complete the files now, rather than whenever the data source happens
+        # to be garbage collected
+        del lyr
+        ds.Destroy()
     return
 
 def infer_field_type(objs, key, max_iter=100):
-- 
2.43.0


From 59f2be9188439aba7f571256f7a3068d58d63008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 073/142] fix: multipolygons can be written to shapefiles

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index a807f72..6c3e294 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -338,7 +338,7 @@ def ogr_asMultiLineString(gi):
     return geom
 
 def ogr_asMultiPolygon(gi):
-    geom = ogr.Geometry(5)
+    geom = ogr.Geometry(6)
     for polygon in gi["coordinates"]:
         ogr_polygon = ogr.Geometry(3)
         for ring in polygon:
-- 
2.43.0


From 97f4d2597155a3b4d65863a61065a16b38ba3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 074/142] fix: fractions of real attributes are written to
 shapefiles

---
 karta/vector/_shp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 6c3e294..76a6f88 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -237,7 +237,13 @@ def ogr_write(fnm, *objs):
         typ, default_width = infer_field_type(objs, k, max_iter=100)
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
-            fd.SetWidth(default_width)
+            if typ == ogr.OFTReal:
+                # without a precision, the fractional part is not stored
+                fd.SetWidth(default_width)
+                fd.SetPrecision(15)
+            elif typ != ogr.OFTInteger:
+                # integers wider than the default width are read as reals
+                fd.SetWidth(default_width)
             lyr.CreateField(fd)
             key_mapping[dbase_key] = k
         else:
-- 
2.43.0


From 9b0c1b25a8f521a68330674f051df19649d9e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 075/142] fix: shapefiles keep the third dimension, and accept
 any type of number as coordinate

---
 karta/vector/_shp.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 76a6f88..1bb1dd2 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -209,6 +209,8 @@ def ogr_write(fnm, *objs):
     # create layer
     geo_t = get_geometry_type(objs[0])
     ogr_t = OGRTYPES[geo_t]
+    if any(_coordinate_rank(obj["geometry"]["coordinates"]) > 2 for obj in objs):
+        ogr_t = getattr(ogr, "wkb{0}25D".format(geo_t))
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
     lyr = ds.CreateLayer(layer_name, srs, ogr_t)
     if lyr is None:
@@ -305,15 +307,29 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     lyr.CreateFeature(feature)
     return
 
+def _coordinate_rank(coordinates):
+    """ Return the number of dimensions of possibly nested coordinates """
+    while len(coordinates) != 0 and hasattr(coordinates[0], "__len__"):
+        coordinates = coordinates[0]
+    return len(coordinates)
+
+def _add_point(geom, pt):
+    """ Append a two or three dimensional position to an OGR geometry """
+    if len(pt) > 2:
+        geom.AddPoint(float(pt[0]), float(pt[1]), float(pt[2]))
+    else:
+        geom.AddPoint_2D(float(pt[0]), float(pt[1]))
+    return
+
 def ogr_asPoint(gi):
     geom = ogr.Geometry(1)
-    geom.AddPoint(gi["coordinates"][0], gi["coordinates"][1])
+    _add_point(geom, gi["coordinates"])
     return geom
 
 def ogr_asLineString(gi):
     geom = ogr.Geometry(2)
     for pt in gi["coordinates"]:
-        geom.AddPoint(float(pt[0]), float(pt[1]))
+        _add_point(geom, pt)
     return geom
 
 def ogr_asPolygon(gi):
@@ -321,7 +337,7 @@ def ogr_asPolygon(gi):
     for ring in gi["coordinates"]:
         ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
         for pt in ring:
-            ogr_ring.AddPoint(pt[0], pt[1])
+            _add_point(ogr_ring, pt)
         geom.AddGeometry(ogr_ring)
     geom.CloseRings()
     return geom
@@ -330,7 +346,7 @@ def ogr_asMultiPoint(gi):
     geom = ogr.Geometry(4)
     for pt in gi["coordinates"]:
         g = ogr.Geometry(1)
-        g.AddPoint(float(pt[0]), float(pt[1]))
+        _add_point(g, pt)
         geom.AddGeometry(g)
     return geom
 
@@ -339,7 +355,7 @@ def ogr_asMultiLineString(gi):
     for linestring in gi["coordinates"]:
         ogr_linstring = ogr.Geometry(2)
         for pt in linestring:
-            ogr_linstring.AddPoint(float(pt[0]), float(pt[1]))
+            _add_point(ogr_linstring, pt)
         geom.AddGeometry(ogr_linstring)
     return geom
 
@@ -350,7 +366,7 @@ def ogr_asMultiPolygon(gi):
         for ring in polygon:
             ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
             for pt in ring:
-                ogr_ring.AddPoint(pt[0], pt[1])
+                _add_point(ogr_ring, pt)
             ogr_polygon.AddGeometry(ogr_ring)
         ogr_polygon.CloseRings()
         geom.AddGeometry(ogr_polygon)
-- 
2.43.0


From b400bdcb543dd280ed3cf4f598d2974f930eea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 076/142] fix: two-dimensional points read from shapefiles have
 two dimensions

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 1bb1dd2..d851b65 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -111,7 +111,7 @@ def ogr_read_geometry(geom):
     if wkbtype in ('Point', 'Point25D', 'PointZ', 'PointM', 'PointZM',
                    'NDR', 'XDR'):
         jsontype = 'Point'
-        pts = geom.GetPoint()
+        pts = geom.GetPoints()[0]
     elif wkbtype in ('LineString', 'LineString25D', 'LineStringZ',
                      'LineStringM', 'LineStringZM'):
         jsontype = 'LineString'
-- 
2.43.0


From 0cd0c0154ebd331b6e423097167199a05384b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 077/142] fix: shapefile attributes that are called 'id' or
 have names altered by the driver

---
 karta/vector/_shp.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index d851b65..7e4553f 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -219,18 +219,21 @@ def ogr_write(fnm, *objs):
     # add attribute table, reserving the first column for 'id'
     idfield = ogr.FieldDefn("id", ogr.OFTInteger)
     lyr.CreateField(idfield)
+    used_keys = {"ID"}
 
     keys = set.intersection(*[set(obj["properties"].keys()) for obj in objs])
     keys = [k for k in keys if not k.startswith("_karta")]
 
     # Get field types
-    key_mapping = {}
+    # property key for each field following "id", in order, because the driver
+    # may change the name of a field
+    field_keys = []
 
     for k in keys:
 
         dbase_key = str(k)[:10].upper()
         i = 2
-        while dbase_key in key_mapping:
+        while dbase_key in used_keys:
             dbase_key = "{}{}".format(dbase_key[:-len(str(i))], str(i))
             warnings.warn("attribute name clash: {} renamed {}"\
                           .format(k, dbase_key))
@@ -247,14 +250,15 @@ def ogr_write(fnm, *objs):
                 # integers wider than the default width are read as reals
                 fd.SetWidth(default_width)
             lyr.CreateField(fd)
-            key_mapping[dbase_key] = k
+            used_keys.add(dbase_key)
+            field_keys.append(k)
         else:
             warnings.warn("appropriate DBF type for {} not found - skipping".format(k))
 
     # add geometries
     try:
         for i, obj in enumerate(objs):
-            ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+            ogr_write_feature(lyr, obj, id=i, field_keys=field_keys)
     finally:
         # complete the files now, rather than whenever the data source happens
         # to be garbage collected
@@ -275,19 +279,15 @@ def infer_field_type(objs, key, max_iter=100):
         i += 1
     return typ, default_width
 
-def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
+def ogr_write_feature(lyr, gi, id=0, field_keys=()):
     """ Write the geometry encoded in a __geointerface__ dictionary to an OGR
-    Layer. """
-    if key_mapping is None:
-        key_mapping = {}
-
+    Layer. *field_keys* are the keys of the properties to be stored in the
+    fields following "id". """
     layer_def = lyr.GetLayerDefn()
     feature = ogr.Feature(layer_def)
     feature.SetField("id", id)
-    for i in range(1, layer_def.GetFieldCount()):
-        attr_name = layer_def.GetFieldDefn(i).GetNameRef()
-        key_name = key_mapping.get(attr_name, attr_name)
-        feature.SetField(attr_name, gi["properties"][key_name])
+    for i, key in enumerate(field_keys):
+        feature.SetField(i+1, gi["properties"][key])
 
     if gi["geometry"]["type"] == "Point":
         geom = ogr_asPoint(gi["geometry"])
-- 
2.43.0


From 7c64b7b54b3ea2600c83d988e736e3020c69fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 078/142] fix: shapefile attributes of every feature are
 stored, whatever their types

---
 karta/vector/_shp.py | 75 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 7e4553f..b93ee44 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -50,6 +50,10 @@ try:
 except AttributeError:
     pass
 
+# types that attributes may have, but that cannot be stored in DBF
+NOT_IN_DBF = {ogr.OFTIntegerList, ogr.OFTRealList, ogr.OFTStringList,
+              ogr.OFTBinary}
+
 def ogr_get_fieldtype(val):
     """ Returns a tuple of
         - an OGR type integer that describes the type of *a*
@@ -57,7 +61,12 @@ def ogr_get_fieldtype(val):
     """
     if isinstance(val, numbers.Number) or _isnumpytype(val):
         if isinstance(val, numbers.Integral) or _isnumpyint(val):
-            return ogr.OFTInteger, 32
+            if -2**31 <= val < 2**31:
+                return ogr.OFTInteger, 32
+            elif -10**17 < val < 10**18:
+                return ogr.OFTInteger64, 32
+            else:
+                return ogr.OFTReal, 32
         elif isinstance(val, numbers.Real) or _isnumpyfloat(val):
             return ogr.OFTReal, 32
         else:
@@ -239,13 +248,15 @@ def ogr_write(fnm, *objs):
                           .format(k, dbase_key))
             i += 1
 
-        typ, default_width = infer_field_type(objs, k, max_iter=100)
+        typ, default_width = infer_field_type(objs, k)
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
             if typ == ogr.OFTReal:
                 # without a precision, the fractional part is not stored
                 fd.SetWidth(default_width)
                 fd.SetPrecision(15)
+            elif typ == ogr.OFTInteger64:
+                fd.SetWidth(18)
             elif typ != ogr.OFTInteger:
                 # integers wider than the default width are read as reals
                 fd.SetWidth(default_width)
@@ -266,18 +277,51 @@ def ogr_write(fnm, *objs):
         ds.Destroy()
     return
 
-def infer_field_type(objs, key, max_iter=100):
-    typ = None
-    default_width = -1
-    i = 0
-    while i != min(max_iter, len(objs)):
+def infer_field_type(objs, key):
+    """ Return the OGR type and width of a field that can hold the values of
+    property *key* from every object, or (None, -1) if there is no such type.
+    Numbers of different types become reals, and values of otherwise different
+    types, or of types that DBF does not have, become strings. """
+    types = {}
+    for obj in objs:
+        val = obj["properties"][key]
+        if val is None:
+            continue
         try:
-            typ, default_width = ogr_get_fieldtype(objs[i]["properties"][key])
-            break
-        except TypeError:
-            pass
-        i += 1
-    return typ, default_width
+            typ, width = ogr_get_fieldtype(val)
+        except (TypeError, IndexError):
+            return None, -1
+        types[typ] = width
+
+    integers = {ogr.OFTInteger, ogr.OFTInteger64}
+    if len(types) == 0 or not types.keys().isdisjoint(NOT_IN_DBF):
+        return None, -1
+    elif types.keys() <= {ogr.OFTDate}:
+        return ogr.OFTDate, types[ogr.OFTDate]
+    elif types.keys() <= {ogr.OFTInteger}:
+        return ogr.OFTInteger, types[ogr.OFTInteger]
+    elif types.keys() <= integers:
+        return ogr.OFTInteger64, types[ogr.OFTInteger64]
+    elif types.keys() <= integers | {ogr.OFTReal}:
+        return ogr.OFTReal, 32
+    else:
+        return ogr.OFTString, 180
+
+def _dbase_value(val, typ):
+    """ Convert an attribute value for a field of OGR type *typ* """
+    if val is None:
+        return None
+    elif hasattr(val, "dtype"):
+        val = val.item()
+    if typ == ogr.OFTString:
+        return str(val)
+    elif typ == ogr.OFTReal:
+        return float(val)
+    elif typ in (ogr.OFTInteger, ogr.OFTInteger64):
+        return int(val)
+    elif typ == ogr.OFTDate:
+        return val.strftime("%Y/%m/%d")
+    return val
 
 def ogr_write_feature(lyr, gi, id=0, field_keys=()):
     """ Write the geometry encoded in a __geointerface__ dictionary to an OGR
@@ -287,7 +331,8 @@ def ogr_write_feature(lyr, gi, id=0, field_keys=()):
     feature = ogr.Feature(layer_def)
     feature.SetField("id", id)
     for i, key in enumerate(field_keys):
-        feature.SetField(i+1, gi["properties"][key])
+        typ = layer_def.GetFieldDefn(i+1).GetType()
+        feature.SetField(i+1, _dbase_value(gi["properties"][key], typ))
 
     if gi["geometry"]["type"] == "Point":
         geom = ogr_asPoint(gi["geometry"])
@@ -374,7 +419,7 @@ def ogr_asMultiPolygon(gi):
 
 def _isnumpyint(o):
     return hasattr(o, "dtype") and \
-            o.dtype in ("int8", "int16", "int32", "int64")
+            o.dtype in ("int8", "int16", "int32", "int64", "bool")
 
 def _isnumpyfloat(o):
     return hasattr(o, "dtype") and \
-- 
2.43.0


From f2774ebae78ac5cb671ab3bd7cdef9907fff28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 079/142] fix: datum and spherical ellipsoids of geographical
 coordinates read from shapefiles

---
 karta/vector/read.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index f6c825a..937c592 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -195,9 +195,17 @@ def ogr_parse_srs(lyr):
     else:
         name = srs.GetAttrValue('PROJCS')
         if srs.IsGeographic():
-            spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                              f=1.0/srs.GetInvFlattening())
-            crs = GeographicalCRS(spheroid, name)
+            if srs.GetInvFlattening() == 0:
+                spheroid = "+a={a} +b={a}".format(a=srs.GetSemiMajor())
+            else:
+                spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
+                                                  f=1.0/srs.GetInvFlattening())
+            datum = [arg for arg in srs.ExportToProj4().split()
+                     if arg.startswith(("+datum", "+towgs84", "+nadgrids"))]
+            if len(datum) != 0:
+                crs = GeographicalCRS(spheroid, name, datum=" ".join(datum))
+            else:
+                crs = GeographicalCRS(spheroid, name)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
     return crs
-- 
2.43.0


From ad1d40bfb3d8357505b50cff46fd87f9491a3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 080/142] fix: sub-polygons read from shapefiles have the
 coordinate system of their polygon

---
 karta/vector/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 937c592..d225fee 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -183,6 +183,8 @@ def ogr_read_shapefile(stem):
             geoms.append(g)
         elif g is not None:
             g.crs = crs
+            for sub in getattr(g, "subs", ()):
+                sub.crs = crs
             geoms.append(g)
     return geoms
 
-- 
2.43.0


From d21f8b281a1d19668071eed1e607cd09d2fd1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 081/142] fix: missing strings, dates and deleted features in
 the attributes of shapefiles

---
 karta/vector/_shp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index b93ee44..a5444a0 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -171,13 +171,19 @@ def ogr_read_attributes(lyr):
     fieldnames = [fd.GetName() for fd in field_defns]
     fieldtypes = [FIELDTYPES[fd.GetType()] for fd in field_defns]
 
-    nfeat = lyr.GetFeatureCount()
     propertylist = []
-    for i in range(nfeat):
+    lyr.ResetReading()
+    for feature in lyr:
         p = {}
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
-                p[fn] = t(lyr.GetFeature(i).GetField(j))
+                val = feature.GetField(j)
+                if val is None:
+                    p[fn] = None
+                elif t is datetime.date:
+                    p[fn] = datetime.datetime.strptime(val, "%Y/%m/%d").date()
+                else:
+                    p[fn] = t(val)
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
-- 
2.43.0


From 47dc1f59d50f950124bc6a224a18b352b27ec154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 082/142] fix: shapefile attributes can hold any text

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index a5444a0..5034ecd 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -227,7 +227,7 @@ def ogr_write(fnm, *objs):
     if any(_coordinate_rank(obj["geometry"]["coordinates"]) > 2 for obj in objs):
         ogr_t = getattr(ogr, "wkb{0}25D".format(geo_t))
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
-    lyr = ds.CreateLayer(layer_name, srs, ogr_t)
+    lyr = ds.CreateLayer(layer_name, srs, ogr_t, options=["ENCODING=UTF-8"])
     if lyr is None:
         raise ValueError("failure creating ogr.Layer within ogr.DataSource")
 
-- 
2.43.0


From 0aed771f2ed5c473cf497310013c41f0a0320ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 083/142] fix: geometries in different coordinate systems can
 be written to one shapefile

---
 karta/vector/_shp.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 5034ecd..2f9e264 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -194,6 +194,22 @@ def ogr_read_attributes(lyr):
 
     return propertylist
 
+def ogr_spatial_reference(obj):
+    """ Return an osr.SpatialReference for a __geo_interface__ Feature """
+    proj4 = obj["properties"]["_karta_proj4"]\
+                .replace("lonlat", "longlat")\
+                .replace("latlon", "latlong")
+    if len(proj4) == 0:
+        proj4 = "+proj=longlat +datum=WGS84"
+    srs = osgeo.osr.SpatialReference()
+    try:
+        srs.ImportFromProj4(proj4)
+    except RuntimeError:
+        raise errors.CRSError("invalid projection string: '{0}'".format(proj4))
+    if srs is None:
+        raise ValueError("failure creating osr.SpatialReference")
+    return srs
+
 def ogr_write(fnm, *objs):
     """ Write features to shapefile using OGR backend. Features are
     __geo_interface__ Feature mappings. """
@@ -208,18 +224,7 @@ def ogr_write(fnm, *objs):
         raise ValueError("failure creating ogr.DataSource from ogr.Driver")
 
     # create a spatial reference
-    proj4 = objs[0]["properties"]["_karta_proj4"]\
-                .replace("lonlat", "longlat")\
-                .replace("latlon", "latlong")
-    if len(proj4) == 0:
-        proj4 = "+proj=longlat +datum=WGS84"
-    srs = osgeo.osr.SpatialReference()
-    try:
-        srs.ImportFromProj4(proj4)
-    except RuntimeError:
-        raise errors.CRSError("invalid projection string: '{0}'".format(proj4))
-    if srs is None:
-        raise ValueError("failure creating osr.SpatialReference")
+    srs = ogr_spatial_reference(objs[0])
 
     # create layer
     geo_t = get_geometry_type(objs[0])
@@ -275,7 +280,13 @@ def ogr_write(fnm, *objs):
     # add geometries
     try:
         for i, obj in enumerate(objs):
-            ogr_write_feature(lyr, obj, id=i, field_keys=field_keys)
+            transform = None
+            if obj["properties"]["_karta_proj4"] != \
+                    objs[0]["properties"]["_karta_proj4"]:
+                transform = osgeo.osr.CoordinateTransformation(
+                                            ogr_spatial_reference(obj), srs)
+            ogr_write_feature(lyr, obj, id=i, field_keys=field_keys,
+                              transform=transform)
     finally:
         # complete the files now, rather than whenever the data source happens
         # to be garbage collected
@@ -329,10 +340,11 @@ def _dbase_value(val, typ):
         return val.strftime("%Y/%m/%d")
     return val
 
-def ogr_write_feature(lyr, gi, id=0, field_keys=()):
+def ogr_write_feature(lyr, gi, id=0, field_keys=(), transform=None):
     """ Write the geometry encoded in a __geointerface__ dictionary to an OGR
     Layer. *field_keys* are the keys of the properties to be stored in the
-    fields following "id". """
+    fields following "id", and *transform* is an osr.CoordinateTransformation
+    to the coordinate system of the layer, if that is different. """
     layer_def = lyr.GetLayerDefn()
     feature = ogr.Feature(layer_def)
     feature.SetField("id", id)
@@ -354,6 +366,8 @@ def ogr_write_feature(lyr, gi, id=0, field_keys=()):
         geom = ogr_asMultiPolygon(gi["geometry"])
     else:
         raise ValueError("geometry type unhandled: {0}".format(gi["geometry"]["type"]))
+    if transform is not None:
+        geom.Transform(transform)
     feature.SetGeometry(geom)
     lyr.CreateFeature(feature)
     return
-- 
2.43.0


From 4ac1ae8cfb3a03cf632f57085ff9c5c09918bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 084/142] fix: names of shapefile attributes that are not in
 ASCII

---
 karta/vector/_shp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 2f9e264..5265813 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -251,7 +251,8 @@ def ogr_write(fnm, *objs):
 
     for k in keys:
 
-        dbase_key = str(k)[:10].upper()
+        # names in DBF have at most ten bytes
+        dbase_key = str(k).upper().encode("utf-8")[:10].decode("utf-8", "ignore")
         i = 2
         while dbase_key in used_keys:
             dbase_key = "{}{}".format(dbase_key[:-len(str(i))], str(i))
-- 
2.43.0


From 81eaf3ef97b34e0aa711c642497c188e8db750c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 085/142] fix: shapefiles are closed after reading

---
 karta/vector/read.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index d225fee..e49b5bc 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -173,7 +173,11 @@ def ogr_read_shapefile(stem):
                                    shp.ogr_read_attributes(layer))]
         crs = ogr_parse_srs(layer)
     finally:
-        del ds, driver, layer
+        # close the files now, rather than whenever the data source happens to
+        # be garbage collected
+        del layer
+        ds.Destroy()
+        del ds, driver
 
     geoms = []
     for g in _geoms:
-- 
2.43.0


From d708719e48f085847e4438ae9d0370b3bd11b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 086/142] fix: geographical coordinate systems read from
 shapefiles keep their datum

---
 karta/crs.py         | 22 +++++++++++++++++++++-
 karta/vector/read.py | 16 ++++------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 90c9ffc..7e5d349 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -27,7 +27,7 @@ osgeo.osr.UseExceptions()
 
 # proj.4 keys for ellipsoids used by named datum definitions
 DATUM_ELLIPSOIDS = {"WGS84": "WGS84", "GGRS87": "GRS80", "NAD83": "GRS80",
-                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clark80",
+                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clrk80ign",
                     "hermannskogel": "bessel", "ire65": "mod_airy",
                     "nzgd49": "intl", "OSGB36": "airy"}
 
@@ -335,6 +335,26 @@ def parse_ellipsoid(projstring):
     return Ellipsoid(ename, ela, b=elb, rf=elrf)
 
 
+def geographical_crs(proj4, name, a, f):
+    """ Return a GeographicalCRS from the proj.4 definition of a geographical
+    system and the semimajor axis and flattening of its ellipsoid. """
+    args = dict(arg.split("=", 1) for arg in proj4.split() if "=" in arg)
+    if "+ellps" in args and args["+ellps"] in ELLIPSOID_DATA:
+        spheroid = "+ellps=%s" % args["+ellps"]
+    elif "+datum" in args and args["+datum"] in DATUM_ELLIPSOIDS:
+        # datum shifts depend on the ellipsoid being the one of the datum
+        spheroid = "+ellps=%s" % DATUM_ELLIPSOIDS[args["+datum"]]
+    elif f == 0:
+        spheroid = "+a={a} +b={a}".format(a=a)
+    else:
+        spheroid = "+a={a} +f={f}".format(a=a, f=f)
+
+    datum = ["%s=%s" % (key, args[key])
+             for key in ("+datum", "+towgs84", "+nadgrids") if key in args]
+    if len(datum) != 0:
+        return GeographicalCRS(spheroid, name, datum=" ".join(datum))
+    return GeographicalCRS(spheroid, name)
+
 def crs_from_wkt(wkt):
     srs = osgeo.osr.SpatialReference(wkt)
     srs.MorphFromESRI()     # munge parameters for proj.4 export
diff --git a/karta/vector/read.py b/karta/vector/read.py
index e49b5bc..7fadc11 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -10,7 +10,7 @@ import picogeojson
 from . import geometry
 from . import _shp as shp
 from . import _gpx as gpx
-from ..crs import GeographicalCRS, ProjectedCRS, LonLatWGS84
+from ..crs import ProjectedCRS, LonLatWGS84, geographical_crs
 from .. import errors
 
 ### GeoInterface functions ###
@@ -201,17 +201,9 @@ def ogr_parse_srs(lyr):
     else:
         name = srs.GetAttrValue('PROJCS')
         if srs.IsGeographic():
-            if srs.GetInvFlattening() == 0:
-                spheroid = "+a={a} +b={a}".format(a=srs.GetSemiMajor())
-            else:
-                spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                                  f=1.0/srs.GetInvFlattening())
-            datum = [arg for arg in srs.ExportToProj4().split()
-                     if arg.startswith(("+datum", "+towgs84", "+nadgrids"))]
-            if len(datum) != 0:
-                crs = GeographicalCRS(spheroid, name, datum=" ".join(datum))
-            else:
-                crs = GeographicalCRS(spheroid, name)
+            rf = srs.GetInvFlattening()
+            crs = geographical_crs(srs.ExportToProj4(), name, srs.GetSemiMajor(),
+                                   1.0 / rf if rf != 0 else 0.0)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
     return crs
-- 
2.43.0


From 2ef8ff7a4498245b1ed90589251fef46f12736bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 087/142] fix: GeoTIFF files are complete and closed when the
 writer returns

---
 karta/raster/_gdal.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8b2f906..364e347 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -56,6 +56,13 @@ class GdalFileBand(object):
     def dtype(self):
         return np.dtype(numpy_dtype(self.gdalband.DataType))
 
+def close(dataset):
+    """ Write pending data and close a dataset, which cannot be used
+    afterward. """
+    dataset.FlushCache()
+    if hasattr(dataset, "Close"):
+        dataset.Close()
+
 def SRS_from_WKT(s):
     """ Return Proj.4 string, semimajor axis, and flattening """
     sr = osgeo.osr.SpatialReference()
@@ -184,6 +191,8 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
 
     finally:
         if in_memory:
+            rasterbands = None
+            close(dataset)
             dataset = None
     return bands, hdr
 
@@ -245,7 +254,10 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         band.SetNoDataValue(grid.nodata)
         band.WriteArray(grid[::-1,:,i])
 
+    # write everything now, rather than whenever the dataset happens to be
+    # garbage collected
     band = None
+    close(dataset)
     dataset = None
     return grid
 
-- 
2.43.0


From 4f77249e461fff015d01623c1558ccc763443876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 088/142] fix: GeoTIFF files in geographical coordinates can be
 read

---
 karta/raster/_gdal.py |  8 +++++++-
 karta/raster/read.py  | 12 +++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 364e347..3084449 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -162,7 +162,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
         if sr is not None:
             hdr["srs"] = {"proj4": sr.ExportToProj4(),
                           "semimajor": sr.GetSemiMajor(),
-                          "flattening": sr.GetInvFlattening(),
+                          "flattening": flattening(sr),
                           "name": sr.GetAttrValue('PROJCS')}
         else:
             hdr["srs"] = {"proj4": "",
@@ -196,6 +196,12 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
             dataset = None
     return bands, hdr
 
+def flattening(sr):
+    """ Return the flattening of the ellipsoid of a spatial reference, which is
+    zero for spheres. """
+    rf = sr.GetInvFlattening()
+    return 1.0 / rf if rf != 0 else 0.0
+
 def srs_from_crs(crs):
     srs = osgeo.osr.SpatialReference()
     # SpatialReference can't parse 'lonlat'
diff --git a/karta/raster/read.py b/karta/raster/read.py
index fd9279b..59b19e6 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -1,7 +1,7 @@
 """ Functions for reading raster data sources as RegularGrid objects """
 import numpy as np
 from .grid import RegularGrid
-from ..crs import ProjectedCRS, GeographicalCRS, Cartesian
+from ..crs import ProjectedCRS, Cartesian, geographical_crs
 from . import _gdal
 from . import _aai
 from ..errors import GridError
@@ -54,9 +54,8 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
         # invalid or missing SRS information
         crs = Cartesian
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        crs = geographical_crs(hdr["srs"]["proj4"], hdr["srs"]["name"],
+                               hdr["srs"]["semimajor"], hdr["srs"]["flattening"])
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
@@ -103,9 +102,8 @@ def from_geotiffs(*fnms, **kw):
          'sy'       : -hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        crs = geographical_crs(hdr["srs"]["proj4"], hdr["srs"]["name"],
+                               hdr["srs"]["semimajor"], hdr["srs"]["flattening"])
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
-- 
2.43.0


From e63580f7a3d35123f75782b2d4f0f11b3f74ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 089/142] fix: skewed grids read from GeoTIFF files

---
 karta/raster/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 59b19e6..2d93faf 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -43,12 +43,12 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     """
     bands, hdr = _gdal.read(fnm, in_memory, ibands, **kw)
 
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if len(hdr["srs"]["proj4"]) == 0:
         # invalid or missing SRS information
@@ -94,12 +94,12 @@ def from_geotiffs(*fnms, **kw):
         hdrs.append(_h)
 
     hdr = hdrs[0]
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
         crs = geographical_crs(hdr["srs"]["proj4"], hdr["srs"]["name"],
-- 
2.43.0


From 74702a5f8ba27de79921675bd675d50860eb8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 090/142] fix: Cartesian grids can be saved to and combined
 from GeoTIFF files

---
 karta/raster/_gdal.py | 5 +++--
 karta/raster/read.py  | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 3084449..b49efea 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -253,8 +253,9 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
     t = grid.transform
     dataset.SetGeoTransform([t[0] + ny*t[4], t[2], -t[4],
                              t[1] + ny*t[3], t[5], -t[3]])
-    srs = srs_from_crs(grid.crs)
-    dataset.SetProjection(srs.ExportToWkt())
+    if grid.crs.get_proj4() != "":
+        srs = srs_from_crs(grid.crs)
+        dataset.SetProjection(srs.ExportToWkt())
     for i, _ in enumerate(grid.bands):
         band = dataset.GetRasterBand(i+1)
         band.SetNoDataValue(grid.nodata)
diff --git a/karta/raster/read.py b/karta/raster/read.py
index 2d93faf..49b8539 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -101,7 +101,10 @@ def from_geotiffs(*fnms, **kw):
          'sx'       : -hdr['sx'],
          'sy'       : hdr['sy']}
 
-    if proj4_isgeodetic(hdr["srs"]["proj4"]):
+    if len(hdr["srs"]["proj4"]) == 0:
+        # invalid or missing SRS information
+        crs = Cartesian
+    elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         crs = geographical_crs(hdr["srs"]["proj4"], hdr["srs"]["name"],
                                hdr["srs"]["semimajor"], hdr["srs"]["flattening"])
     else:
-- 
2.43.0


From be497864728281f0bbceed3045a68c6c311fd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 091/142] fix: GeoTIFF files with a single row

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index b49efea..4f444f1 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -185,7 +185,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
                 _arr = rb.ReadAsArray(buf_obj=np.empty([ny, nx], dtype=dtype))
                 if _arr is None:
                     raise IOError("error reading GDAL band {}".format(i+1))
-                bands[i].setblock(0, 0, _arr.squeeze()[::-1])
+                bands[i].setblock(0, 0, _arr[::-1])
         else:
             bands = [GdalFileBand(rb, dataset) for rb in rasterbands]
 
-- 
2.43.0


From ef37d11fbed962a48da40ca272523437cafc15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 092/142] fix: signed bytes and large integers in GeoTIFF files

---
 karta/raster/_gdal.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 4f444f1..9516cb1 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -82,7 +82,9 @@ NUMPY_DTYPE = {"Byte": np.uint8,
                "CInt16": np.complex64,
                "CInt32": np.complex64,
                "CFloat32": np.complex64,
-               "CFloat64": np.complex64}
+               "CFloat64": np.complex64,
+               "Int8": np.int8,
+               "Int64": np.int64}
 
 def numpy_dtype(dt_int):
     """ Return a numpy dtype that matches the band data type. """
@@ -97,18 +99,24 @@ def gdal_type(dtype):
 
     Notes
     -----
-    Returns GDT_Int32 for np.int64, which may result in overflow.
+    Returns GDT_Int32 for np.int64 if GDAL has no 64 bit type, which may result
+    in overflow.
     """
     if dtype == np.uint8:
         return osgeo.gdal.GDT_Byte
     elif dtype == np.uint16:
         return osgeo.gdal.GDT_UInt16
     elif dtype == np.int8:
-        return osgeo.gdal.GDT_Byte      # transform -127 -- 127 to 0 -- 255
+        # GDT_Byte is unsigned
+        return getattr(osgeo.gdal, "GDT_Int8", osgeo.gdal.GDT_Int16)
     elif dtype == np.int16:
         return osgeo.gdal.GDT_Int16
-    elif (dtype == np.int32) or (dtype == np.int64):
+    elif dtype == np.uint32:
+        return osgeo.gdal.GDT_UInt32
+    elif dtype == np.int32:
         return osgeo.gdal.GDT_Int32
+    elif dtype == np.int64:
+        return getattr(osgeo.gdal, "GDT_Int64", osgeo.gdal.GDT_Int32)
     elif dtype == np.float32:
         return osgeo.gdal.GDT_Float32
     elif dtype == np.float64:
-- 
2.43.0


From a0ac81020e37edca025cdc307e37ff2ee90f123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 093/142] fix: tiled option of to_geotiff

---
 karta/raster/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index aed68d3..e672e80 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1054,8 +1054,10 @@ class RegularGrid(Grid):
             output file name
         compress: str or None, optional
             "PACKBITS" (default), "DEFLATE", "LZW", "LZMA", or None
+        tiled : bool, optional
+            whether to write a tiled dataset (default False)
         """
-        return _gdal.write(fnm, self, compress=compress, **kw)
+        return _gdal.write(fnm, self, compress=compress, tiled=tiled, **kw)
 
     def to_gtiff(self, *args, **kwargs):
         """ Alias for to_geotiff """
-- 
2.43.0


From 9663ac0e5e77ed725c182d1b150c88e7405c9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 094/142] fix: in_memory option of from_geotiffs

---
 karta/raster/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 49b8539..79bb68a 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -76,7 +76,7 @@ def from_geotiffs(*fnms, **kw):
         if in_memory is True, this parameter is ignored and the returned grid
         will have bands of type karta.raster._gdal.GdalFileBand
     """
-    in_memory = kw.get("in_memory", True)
+    in_memory = kw.pop("in_memory", True)
     if len(fnms) == 0:
         raise ValueError("at least one filename must be provided")
     bands = []
-- 
2.43.0


From 3410dce96188ecf44251c6ff667ee71341d776be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 095/142] fix: from_geotiffs refuses grids with different
 transforms or coordinate systems

---
 karta/raster/read.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 79bb68a..2fbdebe 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -83,13 +83,14 @@ def from_geotiffs(*fnms, **kw):
     hdrs = []
     for i, fnm in enumerate(fnms):
         _b, _h = _gdal.read(fnm, in_memory, 1, **kw)
-        if (i != 0) and (len(hdrs) != 0):
-            for k, v in _h.items():
-                if (isinstance(v, float)
-                        and np.isnan(v) and not np.isnan(hdrs[-1].get(k, 0))):
-                    if v != hdrs[-1].get(k, np.nan):
-                        raise GridError("geotransform in {0} not equivalent to "
-                                        "a previous GeoTiff".format(fnm))
+        if i != 0:
+            for k in ("nx", "ny", "xulcorner", "yulcorner", "dx", "dy", "sx", "sy"):
+                if _h[k] != hdrs[0][k]:
+                    raise GridError("geotransform in {0} not equivalent to "
+                                    "a previous GeoTiff".format(fnm))
+            if _h["srs"]["proj4"] != hdrs[0]["srs"]["proj4"]:
+                raise GridError("coordinate system in {0} not equivalent to "
+                                "a previous GeoTiff".format(fnm))
         bands.append(_b[0])
         hdrs.append(_h)
 
-- 
2.43.0


From 91fe08c3f856be875e1633c15bc4dd3d8649d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 096/142] fix: empty slices of and iteration over bands on disk

---
 karta/raster/_gdal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 9516cb1..7a5c04c 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -36,6 +36,8 @@ class GdalFileBand(object):
     def getblock(self, yoff, xoff, ny, nx):
         # Note that GDAL uses the alternative x,y convention
         grid_ny, grid_nx = self.size
+        if ny == 0 or nx == 0:
+            return np.empty([ny, nx], dtype=self.dtype)
         chunk = self.gdalband.ReadAsArray(xoff, grid_ny - yoff - ny, nx, ny)
         if chunk is None:
             raise IOError("failure reading slice from GDAL backend")
@@ -46,7 +48,7 @@ class GdalFileBand(object):
 
     def __iter__(self):
         for i in range(self.dataset.RasterYSize):
-            yield self[i,:]
+            yield self.getblock(i, 0, 1, self.dataset.RasterXSize)[0]
 
     @property
     def size(self):
-- 
2.43.0


From 01f3aaa832da28d0a1898e89ad8b2d5f64ccbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 097/142] fix: grids with bands on disk that have no nodata
 value

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e672e80..c0a3228 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -189,7 +189,7 @@ class RegularGrid(Grid):
             if len(self.bands) == 0:
                 self._nodata = np.nan
             else:
-                self._nodata = get_nodata(self.bands[0].dtype)
+                self._nodata = get_nodata(np.dtype(self.bands[0].dtype).type)
         else:
             self._nodata = nodata_value
         return
-- 
2.43.0


From 11c577b4a6a54036d54bc87c49cd6044206f4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 098/142] fix: GeoTIFF files with a local coordinate system can
 be read

---
 karta/raster/_gdal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 7a5c04c..0331361 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -169,8 +169,14 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
             raise AttributeError("No GeoTransform in geotiff file")
 
         sr = SRS_from_WKT(dataset.GetProjectionRef())
+        proj4 = ""
         if sr is not None:
-            hdr["srs"] = {"proj4": sr.ExportToProj4(),
+            try:
+                proj4 = sr.ExportToProj4()
+            except RuntimeError:
+                pass        # local coordinate system
+        if proj4 != "":
+            hdr["srs"] = {"proj4": proj4,
                           "semimajor": sr.GetSemiMajor(),
                           "flattening": flattening(sr),
                           "name": sr.GetAttrValue('PROJCS')}
-- 
2.43.0


From 3c4a060681d5e1b130f2578db4e91968e5a86e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 099/142] fix: skewed, mirrored and multi-band grids cannot be
 ESRI ASCII grids

---
 karta/raster/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index c0a3228..ba30641 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1088,13 +1088,16 @@ class RegularGrid(Grid):
                            "'corner'")
 
         dx, dy = self.resolution
-        if dx != dy:
+        if dx != dy or dx <= 0:
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-        if sx != sy != 0.0:
+        if sx != 0.0 or sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
+        if len(self.bands) != 1:
+            raise errors.GridError("ESRI ASCII grids have a single band")
+
         ny, nx = self.bands[0].size
 
         if not hasattr(f, 'read'):
-- 
2.43.0


From cd4071cc283cf14d6c8b8e8e6031a6c3e069f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 100/142] fix: values, row order and missing data in ESRI ASCII
 grids

---
 karta/raster/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ba30641..685611d 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1104,8 +1104,11 @@ class RegularGrid(Grid):
             f = open(f, "w")
 
         try:
-            data_a = self[:,:].copy()
-            data_a[np.isnan(data_a)] = nodata_value
+            # rows are written from the top
+            data_a = self[::-1,:,0]
+            missing = np.isnan(data_a) | ~self.data_mask[::-1]
+            rows = [[nodata_value if m else v for v, m in zip(*row)]
+                    for row in zip(data_a.tolist(), missing.tolist())]
 
             f.write("NCOLS {0}\n".format(nx))
             f.write("NROWS {0}\n".format(ny))
@@ -1120,7 +1123,7 @@ class RegularGrid(Grid):
             f.write("CELLSIZE {0}\n".format(dx))
             f.write("NODATA_VALUE {0}\n".format(nodata_value))
             f.writelines([str(row).replace(',','')[1:-1] +
-                            '\n' for row in data_a.tolist()])
+                            '\n' for row in rows])
         finally:
             f.close()
         return self
-- 
2.43.0


From c556ee23d32431ace9f7cae80e9f32eb544c2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 101/142] fix: to_aai leaves file-like objects open

---
 karta/raster/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 685611d..9b27568 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1100,7 +1100,8 @@ class RegularGrid(Grid):
 
         ny, nx = self.bands[0].size
 
-        if not hasattr(f, 'read'):
+        opened = not hasattr(f, 'write')
+        if opened:
             f = open(f, "w")
 
         try:
@@ -1125,7 +1126,8 @@ class RegularGrid(Grid):
             f.writelines([str(row).replace(',','')[1:-1] +
                             '\n' for row in rows])
         finally:
-            f.close()
+            if opened:
+                f.close()
         return self
 
 def merge(grids, weights=None):
-- 
2.43.0


From 4cd6d574b9cbff6ed5b431189e5dd1b21e81e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:56 +0000
Subject: [PATCH 102/142] fix: ESRI ASCII grids with rows over several lines

---
 karta/raster/_aai.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/raster/_aai.py b/karta/raster/_aai.py
index cf47fb4..5183cf2 100644
--- a/karta/raster/_aai.py
+++ b/karta/raster/_aai.py
@@ -46,9 +46,9 @@ def aairead(fnm):
 
     check_header(hdr)
 
-    f = lambda l: [float(i) for i in l.split()]
-    data_f = list(map(f, data))
-    data_a = np.array(data_f)
+    # rows may be split over several lines
+    data_f = [float(i) for l in data for i in l.split()]
+    data_a = np.array(data_f).reshape(hdr['nrows'], hdr['ncols'])
     data_a[data_a==hdr['nodata_value']] = np.nan
 
     return data_a, hdr
-- 
2.43.0


From 12d1d95b13d4f3037f3463e298644cb0c2b6cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 103/142] fix: ESRI ASCII grids without a size raise ValueError

---
 karta/raster/_aai.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_aai.py b/karta/raster/_aai.py
index 5183cf2..09839a8 100644
--- a/karta/raster/_aai.py
+++ b/karta/raster/_aai.py
@@ -27,8 +27,6 @@ def aairead(fnm):
     # Store data internally
     hs = [rec.split(None, 1) for rec in h]
     hdr = dict([(rec[0].lower(), float(rec[1])) for rec in hs])
-    hdr['ncols'] = int(hdr['ncols'])
-    hdr['nrows'] = int(hdr['nrows'])
     if 'yllcenter' not in hdr.keys():
         hdr['yllcenter'] = None
 
@@ -45,6 +43,8 @@ def aairead(fnm):
         hdr['nodata_value'] = -9999
 
     check_header(hdr)
+    hdr['ncols'] = int(hdr['ncols'])
+    hdr['nrows'] = int(hdr['nrows'])
 
     # rows may be split over several lines
     data_f = [float(i) for l in data for i in l.split()]
-- 
2.43.0


From c4e806dd7a58bbec81e504e2adfd5c77f9710b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:02 +0000
Subject: [PATCH 104/142] fix: geographical coordinate systems other than WGS84
 keep their datum when read

---
 karta/crs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 7e5d349..1ddc90d 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -339,10 +339,8 @@ def geographical_crs(proj4, name, a, f):
     """ Return a GeographicalCRS from the proj.4 definition of a geographical
     system and the semimajor axis and flattening of its ellipsoid. """
     args = dict(arg.split("=", 1) for arg in proj4.split() if "=" in arg)
-    if "+ellps" in args and args["+ellps"] in ELLIPSOID_DATA:
-        spheroid = "+ellps=%s" % args["+ellps"]
-    elif "+datum" in args and args["+datum"] in DATUM_ELLIPSOIDS:
-        # datum shifts depend on the ellipsoid being the one of the datum
+    if args.get("+datum", "WGS84") != "WGS84" and args["+datum"] in DATUM_ELLIPSOIDS:
+        # datum shifts are only applied to the named ellipsoid of the datum
         spheroid = "+ellps=%s" % DATUM_ELLIPSOIDS[args["+datum"]]
     elif f == 0:
         spheroid = "+a={a} +b={a}".format(a=a)
-- 
2.43.0


From 7f06bb3f6c07a7573858ab44b9fcab5c066f2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 105/142] fix: ESRI ASCII grids without numbers raise
 ValueError

---
 karta/raster/_aai.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_aai.py b/karta/raster/_aai.py
index 09839a8..0edd910 100644
--- a/karta/raster/_aai.py
+++ b/karta/raster/_aai.py
@@ -10,8 +10,8 @@ def aairead(fnm):
         # Count the number of header entries
         cnt = 0
         while True:
-            l = f.readline()
-            if l.split(None, 1)[0].lower() in ['nrows', 'ncols',
+            words = f.readline().split(None, 1)
+            if len(words) != 0 and words[0].lower() in ['nrows', 'ncols',
                     'yllcenter', 'xllcenter', 'yllcorner', 'xllcorner',
                     'cellsize', 'nodata_value']:
                 cnt += 1
-- 
2.43.0


From 87e761f8eca68807252e999c8eb24e632ba73b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 106/142] fix: GPX waypoints can be read

---
 karta/vector/_gpx.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 598a4a7..856307b 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -151,10 +151,8 @@ class GPX(object):
         return
 
     def parse_wpt(self, wpt):
-        """ Parse a <wpt> node, updating self.waypoints. """
-        point = self._readwpt(wpt)
-        name = wpt.properties.get("name", "waypoint_" + str(len(self.waypoints)))
-        self.waypoints[name] = point
+        """ Parse a <wpt> node, updating self.waypts. """
+        self.waypts.append(self._readwpt(wpt))
         return
 
     def parse_trk(self, trk):
-- 
2.43.0


From 2970dea50f6ed43aaf4a6933eca29cf8352abf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 107/142] fix: extensions are not properties of GPX tracks,
 segments and routes

---
 karta/vector/_gpx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 856307b..2a1c8f7 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -158,13 +158,13 @@ class GPX(object):
     def parse_trk(self, trk):
         """ Parse a <trk> node, updating self.tracks. """
         segments = []
-        trkproperties = self._readproperties(trk, exclude=("trkseg",))
+        trkproperties = self._readproperties(trk, exclude=("trkseg", "extensions"))
         trkextensions = self._readextensions(trk)
 
         for trkseg in trk.findall(ns + "trkseg"):
 
             points = [self._readwpt(trkpt) for trkpt in trkseg.findall(ns + "trkpt")]
-            properties = self._readproperties(trkseg, exclude=("trkpt",))
+            properties = self._readproperties(trkseg, exclude=("trkpt", "extensions"))
             extensions = self._readextensions(trkseg)
             segments.append(Trkseg(points, properties, extensions))
 
@@ -172,7 +172,7 @@ class GPX(object):
         return
 
     def parse_rte(self, rte):
-        properties = self._readproperties(rte, exclude=("rtept",))
+        properties = self._readproperties(rte, exclude=("rtept", "extensions"))
         extensions = self._readextensions(rte)
         points = [self._readwpt(rtept) for rtept in rte.findall(ns + "rtept")]
         self.routes.append(Route(points, properties, extensions))
-- 
2.43.0


From 93ad96b27280f5de7cca8193a0c5c86a9374d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 108/142] fix: GPX files with extensions outside of any
 namespace

---
 karta/vector/_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 2a1c8f7..33d93c7 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -29,7 +29,7 @@ VALID_PROPERTIES = ("ele", "time", "magvar", "geoidheight", "name", "cmt",
                     "vdop", "pdop", "ageofdgpsdata", "dgpsid")
 
 def strip_namespace(s):
-    return s[s.index("}")+1:]
+    return s[s.rfind("}")+1:]
 
 class GPX(object):
     """ Represents a GPX document, with an internal representation of
-- 
2.43.0


From 1cf3edd95da0dc87f751208d847734e4eec9412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 109/142] fix: extensions of GPX tracks

---
 karta/vector/_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 33d93c7..2b8e7f9 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -220,7 +220,7 @@ class GPX(object):
                 if key in VALID_PROPERTIES:
                     properties[key] = str(attributes[key])
                 else:
-                    properties[key] = str(attributes[key])
+                    extensions[key] = str(attributes[key])
 
         for line in tracks:
             points = []
-- 
2.43.0


From 428a359e3a09bcafbe6a9c0b0a191520e45d506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 110/142] fix: lines, elevations, data and extensions in GPX
 tracks and routes

---
 karta/vector/_gpx.py | 61 ++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 2b8e7f9..9c21b18 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -192,6 +192,27 @@ class GPX(object):
         self.waypts.append(waypt)
         return
 
+    @staticmethod
+    def _points(geom):
+        """ Return a list of GPX points from the vertices and the data (if there
+        are any) of a Multipoint-like object. """
+        data = getattr(geom, "data", None)
+        fields = [] if data is None else data.fields
+
+        points = []
+        for i, xy in enumerate(geom.vertices()):
+            properties = {}
+            extensions = {}
+            for key in fields:
+                if key in VALID_PROPERTIES:
+                    properties[key] = geom.d[key][i]
+                else:
+                    extensions[key] = geom.d[key][i]
+            if len(xy) == 3:
+                properties["ele"] = xy[2]
+            points.append(Point((xy[0], xy[1]), properties, extensions))
+        return points
+
     def add_track(self, *tracks, **kw):
         """ Add Multipoint-like objects as segments of a track. Dictionaries of
         properties and extension types for the track are accepted as keyword
@@ -223,7 +244,6 @@ class GPX(object):
                     extensions[key] = str(attributes[key])
 
         for line in tracks:
-            points = []
             sg_properties = {}
             sg_extensions = {}
 
@@ -233,27 +253,7 @@ class GPX(object):
                 else:
                     sg_extensions[key] = str(line.properties[key])
 
-            if line.data is not None:
-                pt_properties = [k for k in line.data.fields if k in VALID_PROPERTIES]
-                pt_extensions = [k for k in line.data.fields if k not in VALID_PROPERTIES]
-            else:
-                pt_properties = []
-                pt_extensions = []
-
-            for i, xy in enumerate(line.vertices()):
-
-                ptprop = {}
-                ptexte = {}
-                for key in pt_properties:
-                    ptprop[key] = line.d[key][i]
-                    if len(xy) == 3:
-                        ptprop["ele"] = xy[2]
-                for key in pt_extensions:
-                    ptexte[key] = line.d[key][i]
-
-                points.append(Point((xy[0], xy[1]), ptprop, ptexte))
-
-            segments.append(Trkseg(points, sg_properties, sg_extensions))
+            segments.append(Trkseg(self._points(line), sg_properties, sg_extensions))
 
         self.tracks.append(Track(segments, properties, extensions))
         return
@@ -273,14 +273,15 @@ class GPX(object):
 
         Needs to properly add and <ele> property for Lines of rank 3
         """
-        points = []
-        for i, vertex in enumerate(route.vertices()):
-            prop = {}
-            if route.data is not None:
-                for k in route.data.fields:
-                    prop[k] = route.data[k][i]
-            points.append(Point((vertex[0], vertex[1]), prop, {}))
-        self.routes.append(Route(points, route.properties, {}))
+        properties = {}
+        extensions = {}
+        for key in route.properties:
+            if key in VALID_PROPERTIES:
+                properties[key] = str(route.properties[key])
+            else:
+                extensions[key] = str(route.properties[key])
+
+        self.routes.append(Route(self._points(route), properties, extensions))
         return
 
     def as_string(self, waypts=True, tracks=True, routes=True):
-- 
2.43.0


From eee5bc411114acb966ea66897ec476843f4607e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 111/142] fix: elevations of GPX waypoints

---
 karta/vector/_gpx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 9c21b18..5de65b6 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -188,7 +188,10 @@ class GPX(object):
                 properties[key] = str(waypoint.properties[key])
             else:
                 extensions[key] = str(waypoint.properties[key])
-        waypt = Point(waypoint.vertex(), properties, extensions)
+        vertex = waypoint.vertex()
+        if len(vertex) == 3:
+            properties["ele"] = str(vertex[2])
+        waypt = Point(vertex[:2], properties, extensions)
         self.waypts.append(waypt)
         return
 
-- 
2.43.0


From 412dddd4d280bed53169484b38f912123fdd7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 112/142] fix: geometries in other coordinate systems in GPX
 documents

---
 karta/vector/_gpx.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 5de65b6..57674a4 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -15,6 +15,7 @@ import collections
 import xml.etree.ElementTree as ET
 from xml.etree.ElementTree import ElementTree, Element
 from xml.dom import minidom
+from ..crs import Cartesian, LonLatWGS84
 
 Point = collections.namedtuple("Point", ["lonlat", "properties", "extensions"])
 Trkseg = collections.namedtuple("Trkseg", ["trkpts", "properties", "extensions"])
@@ -31,6 +32,14 @@ VALID_PROPERTIES = ("ele", "time", "magvar", "geoidheight", "name", "cmt",
 def strip_namespace(s):
     return s[s.rfind("}")+1:]
 
+def gpx_crs(geom):
+    """ Return the coordinate system for writing a geometry. Positions in GPX
+    documents are longitudes and latitudes, as are those of geometries without a
+    geographical position. """
+    if geom.crs == Cartesian:
+        return None
+    return LonLatWGS84
+
 class GPX(object):
     """ Represents a GPX document, with an internal representation of
     waypoints, tracks, and route that loosely approximates the XML structure.
@@ -188,7 +197,7 @@ class GPX(object):
                 properties[key] = str(waypoint.properties[key])
             else:
                 extensions[key] = str(waypoint.properties[key])
-        vertex = waypoint.vertex()
+        vertex = waypoint.vertex(gpx_crs(waypoint))
         if len(vertex) == 3:
             properties["ele"] = str(vertex[2])
         waypt = Point(vertex[:2], properties, extensions)
@@ -203,7 +212,7 @@ class GPX(object):
         fields = [] if data is None else data.fields
 
         points = []
-        for i, xy in enumerate(geom.vertices()):
+        for i, xy in enumerate(geom.vertices(gpx_crs(geom))):
             properties = {}
             extensions = {}
             for key in fields:
-- 
2.43.0


From 493fe4307fa6daf8bc578f4c0e1d59ec0f7b838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:05 +0000
Subject: [PATCH 113/142] fix: GPX documents with names outside of ASCII

---
 karta/vector/_gpx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 57674a4..62902e7 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -12,6 +12,7 @@ To do:
 """
 
 import collections
+import io
 import xml.etree.ElementTree as ET
 from xml.etree.ElementTree import ElementTree, Element
 from xml.dom import minidom
@@ -312,11 +313,11 @@ class GPX(object):
             for route in self.routes:
                 gpx.append(self._build_gpx_rte(route))
 
-        xmlstring = ET.tostring(gpx).decode("ascii")
+        xmlstring = ET.tostring(gpx, "utf-8").decode("utf-8")
         return xmlstring
 
     def writefile(self, fnm, **kw):
-        with open(fnm, "w") as f:
+        with io.open(fnm, "w", encoding="utf-8") as f:
             f.write(self.as_string(**kw))
         return
 
-- 
2.43.0


From 886bf39dca396cfd6b2876855b2b73d65d9f790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 114/142] fix: ellipsoids of proj.4 strings with +R, +rf, +f=0,
 or other parameters beginning with a, b or f

---
 karta/crs.py | 51 ++++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 1ddc90d..6507c8b 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -302,37 +302,26 @@ class ProjectedCRS(CartesianCRS):
         return pyproj.transform(self._proj, other._proj, x, y, z=z)
 
 def parse_ellipsoid(projstring):
-    ename, ela, elb, elrf = None, None, None, None
-    if "+ellps" in projstring:
-        for kv in projstring.split():
-            if kv.startswith("+ellps"):
-                k,v = kv.split("=")
-                ela, elb, elrf, ename = ELLIPSOID_DATA[v]
-                break
-    elif "+datum" in projstring:
-        for kv in projstring.split():
-            if kv.startswith("+datum"):
-                k,v = kv.split("=")
-                ellps = DATUM_ELLIPSOIDS[v]
-                ela, elb, elrf, ename = ELLIPSOID_DATA[ellps]
-                break
-    elif ("+a" in projstring) and (("+b" in projstring) or ("+f" in projstring)):
-        ename = "Unknown"
-        for kv in projstring.split():
-            if kv.startswith("+a"):
-                _, ela = kv.split("=")
-                ela = float(ela)
-            elif kv.startswith("+b"):
-                _, elb = kv.split("=")
-                elb = float(elb)
-            elif kv.startswith("+f"):
-                _, elf = kv.split("=")
-                elrf = 1.0/float(elf)
-            if ela and (elb or elrf):
-                break
-    else:
-        raise errors.CRSError("ellipsoid could not be extracted from %s" % projstring)
-    return Ellipsoid(ename, ela, b=elb, rf=elrf)
+    args = {}
+    for kv in projstring.split():
+        if "=" in kv:
+            k, v = kv.split("=", 1)
+            args.setdefault(k, v)
+
+    if "+ellps" in args:
+        a, b, rf, name = ELLIPSOID_DATA[args["+ellps"]]
+        return Ellipsoid(name, a, b=b, rf=rf)
+    elif "+datum" in args:
+        a, b, rf, name = ELLIPSOID_DATA[DATUM_ELLIPSOIDS[args["+datum"]]]
+        return Ellipsoid(name, a, b=b, rf=rf)
+    elif "+R" in args:
+        return Ellipsoid("Unknown", float(args["+R"]), f=0.0)
+    elif "+a" in args:
+        for key in ("b", "f", "rf"):
+            if "+" + key in args:
+                return Ellipsoid("Unknown", float(args["+a"]),
+                                 **{key: float(args["+" + key])})
+    raise errors.CRSError("ellipsoid could not be extracted from %s" % projstring)
 
 
 def geographical_crs(proj4, name, a, f):
-- 
2.43.0


From 36f6889ae17b3466d992d268c308587937eefcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 115/142] fix: WKT of coordinate systems defined with
 +proj=latlong

---
 karta/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 6507c8b..c0368d0 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -146,8 +146,8 @@ class CRS(object):
         else:
             srs = osgeo.osr.SpatialReference()
             if hasattr(self, "ref_proj4"):
-                _proj4 = self.ref_proj4.replace("latlon", "latlong")\
-                                       .replace("lonlat", "longlat")
+                aliases = {"+proj=" + p: "+proj=longlat" for p in ("lonlat", "latlon", "latlong")}
+                _proj4 = " ".join(aliases.get(arg, arg) for arg in self.ref_proj4.split())
                 srs.ImportFromProj4(_proj4)
             else:
                 raise AttributeError("incomplete CRS definition (missing ref_proj4, ref_wkt attributes)")
-- 
2.43.0


From 779b8528790f49e76f27673cdfa35f3d19789a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 116/142] fix: crs_from_wkt keeps the datum and reads
 geographical systems with any ellipsoid

---
 karta/crs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index c0368d0..4bd05aa 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -348,12 +348,12 @@ def crs_from_wkt(wkt):
     if srs.IsGeographic():
         proj4 = srs.ExportToProj4()
         for arg in proj4.split():
-            if "+ellps" in arg:
-                return GeographicalCRS(arg, "unnamed")
-            if "+datum" in arg:
+            if arg.startswith("+datum="):
                 _,v = arg.split("=")
-                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v)
-        raise errors.CRSError("Could not interpret %s as geographical CRS" % proj4)
+                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v, datum=arg)
+        rf = srs.GetInvFlattening()
+        return geographical_crs(proj4, "unnamed", srs.GetSemiMajor(),
+                                1.0 / rf if rf != 0 else 0.0)
     else:
         return ProjectedCRS(srs.ExportToProj4())
 
-- 
2.43.0


From 79e32a43252216ed9cbae8d4773cce64e31578c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 117/142] fix: geodesics between lists of positions

---
 karta/crs.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 4bd05aa..a088f45 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -201,6 +201,12 @@ class CartesianCRS(CRS):
     def transform(*args):
         raise NotImplementedError("Cartesian CRS cannot be accurately transformed")
 
+def reduce_azimuth(az):
+    """ Return an azimuth, or any sequence of them, in the range [-180, 180) """
+    if isinstance(az, (list, tuple)):
+        az = np.array(az)
+    return geodesy.reduce_deg(az)
+
 class GeographicalCRS(CRS):
     """ Reference systems with longitude-latitude (θ, φ) coordinates.
 
@@ -232,15 +238,12 @@ class GeographicalCRS(CRS):
     def forward(self, *args, **kwargs):
         """ Forward geodetic problem from a point """
         x, y, baz = self._geod.fwd(*args, **kwargs)
-        baz = (baz + 180) % 360 - 180
-        return x, y, baz
+        return x, y, reduce_azimuth(baz)
 
     def inverse(self, *args, **kwargs):
         """ Inverse geodetic problem to find the geodesic between points """
         az, baz, dist = self._geod.inv(*args, **kwargs)
-        az = (az + 180) % 360 - 180
-        baz = (baz + 180) % 360 - 180
-        return az, baz, dist
+        return reduce_azimuth(az), reduce_azimuth(baz), dist
 
     def transform(self, other, x, y):
         return pyproj.transform(self._proj, other._proj, x, y)
@@ -288,15 +291,12 @@ class ProjectedCRS(CartesianCRS):
     def forward(self, *args, **kwargs):
         """ Forward geodetic problem from a point """
         x, y, baz = self._geod.fwd(*args, **kwargs)
-        baz = (baz + 180) % 360 - 180
-        return x, y, baz
+        return x, y, reduce_azimuth(baz)
 
     def inverse(self, *args, **kwargs):
         """ Inverse geodetic problem to find the geodesic between points """
         az, baz, dist = self._geod.inv(*args, **kwargs)
-        az = (az + 180) % 360 - 180
-        baz = (baz + 180) % 360 - 180
-        return az, baz, dist
+        return reduce_azimuth(az), reduce_azimuth(baz), dist
 
     def transform(self, other, x, y, z=None):
         return pyproj.transform(self._proj, other._proj, x, y, z=z)
-- 
2.43.0


From ce296d50ee867f93160ff16aa8818dcd5fa49812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 118/142] fix: geodesics between nearly antipodal positions

---
 karta/geodesy.py | 62 +++++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index f1c72a4..907c973 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -188,41 +188,6 @@ def intersection_spherical(segment1, segment2):
 # Functions for ellipsoidal geodesy
 # ---------------------------------
 
-def solve_astroid(a, f, lambda12, phi1, phi2):
-    """ Used to provide an initial guess to the inverse problem in the case of
-    nearly antipodal points.
-
-    Parameters
-    ----------
-    a: float
-        equatorial radius
-    f: float
-        flattening
-    lambda12: float (radians)
-        difference in longitudes
-    phi1: float (radians)
-        first latitude
-    phi2: float (radians)
-        second latitude
-
-    Returns
-    -------
-    alpha1: float (radians)
-        estimated forward azimuth at first point
-
-    see Karney (2013) J. Geod. for details
-    """
-    beta1 = atan((1-f) * tan(phi1))
-    beta2 = atan((1-f) * tan(phi2))
-    delta = f*a*pi*cos(beta1)**2
-    x = (lambda12-pi) * (a*cos(beta1)) / delta
-    y = (beta2 + beta1) * a / delta
-    mu = fzero_brent(1e-6, pi*a, lambda mu: (mu**4 + 2*mu**3 +
-                                             (1-x**2-y**2)*mu**2 - 2*y**2*mu -
-                                             y**2), 1e-12)
-    alpha1 = atan2(-x / (1+mu), y/mu)
-    return alpha1
-
 def solve_vincenty(a, f, lambda12, phi1, phi2):
     """ Used to provide an initial guess to the inverse problem by solving the
     corresponding problem on a sphere.
@@ -467,12 +432,14 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     if tol is None:
         tol = 1e-12
 
-    if y1 == y2 == 0:
+    if y1 == y2 == 0 and abs(reduce_deg(x2-x1)) <= 180.0 * b/a:
         # Equatorial case
         return _ellipsoidal_inverse_equatorial(a, x1, x2)
 
     # Canonical configuration
     tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    if y1 == 0:
+        y1, y2 = -0.0, 0.0      # geodesic through the southern hemisphere
 
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
@@ -518,13 +485,11 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     else:
         # Newton iteration
 
-        # Guess the azimuth
-        if abs(lambda12-pi) > 0.0087:
-            # not nearly antipodal
-            alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
-        else:
-            alpha1 = solve_astroid(a, f, lambda12, phi1, phi2)
+        # Guess the azimuth, which is poor for nearly antipodal points
+        alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
 
+        # Longitude increases with azimuth, so the solution is kept bracketed
+        alpha1_min, alpha1_max = 0.0, pi
         dlambda12 = tol + 1
 
         while (abs(dlambda12) > tol) and (niter != maxiter):
@@ -593,9 +558,16 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
                 m12 = b * (sqrt(1 + k2*sin(sigma2)**2) * cos(sigma1)*sin(sigma2) \
                          - sqrt(1 + k2*sin(sigma1)**2) * sin(sigma1)*cos(sigma2) \
                          - cos(sigma1) * cos(sigma2) * (Js2-Js1))
-                dlambda12_dalpha1 = m12/(a * cos(alpha2)*cos(beta2))
-                dalpha1 = -dlambda12 / dlambda12_dalpha1
-                alpha1 = (alpha1 + dalpha1) % (2*pi)
+                if dlambda12 > 0:
+                    alpha1_max = alpha1
+                else:
+                    alpha1_min = alpha1
+
+                denom = a * cos(alpha2)*cos(beta2)
+                if m12 != 0 and denom != 0:
+                    alpha1 -= dlambda12 * denom / m12
+                if not (alpha1_min < alpha1 < alpha1_max):
+                    alpha1 = 0.5*(alpha1_min + alpha1_max)
 
             niter += 1
 
-- 
2.43.0


From 183e2a72d0a136f4fc1b75bcf2205d16ebb90fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:40 +0000
Subject: [PATCH 119/142] fix: azimuths of geodesics that nearly follow a
 meridian

---
 karta/geodesy.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 907c973..08a2c02 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -242,11 +242,9 @@ def _solve_NEA(alpha0, alpha1, beta1):
 
 def _solve_NEB(alpha0, alpha1, beta1, beta2):
     """ See Karney (2013) """
-    try:
-        alpha2 = acos(sqrt(cos(alpha1)**2*cos(beta1)**2 + (cos(beta2)**2 - \
-                    cos(beta1)**2)) / cos(beta2))
-    except ValueError:
-        alpha2 = asin(sin(alpha0) / cos(beta2))     # Less accurate?
+    cosa2 = sqrt(max(0.0, cos(alpha1)**2*cos(beta1)**2 + \
+                          (cos(beta2)**2 - cos(beta1)**2)))
+    alpha2 = atan2(sin(alpha0), cosa2)
     sigma2 = atan2(sin(beta2), cos(alpha2)*cos(beta2))
     omega2 = atan2(sin(alpha0)*sin(sigma2), cos(sigma2))
     return alpha2, sigma2, omega2
-- 
2.43.0


From 546d7a711fb70d0a7a03d136691d6dee37904d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:40 +0000
Subject: [PATCH 120/142] fix: spurious convergence failures of geodesics near
 the poles

---
 karta/geodesy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 08a2c02..3816c8f 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -566,6 +566,8 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
                     alpha1 -= dlambda12 * denom / m12
                 if not (alpha1_min < alpha1 < alpha1_max):
                     alpha1 = 0.5*(alpha1_min + alpha1_max)
+                    if alpha1 in (alpha1_min, alpha1_max):
+                        break       # as precise as possible
 
             niter += 1
 
-- 
2.43.0


From 881a1d04f38e9a2145993406ca361498a9e69a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:40 +0000
Subject: [PATCH 121/142] fix: longitude of geodesics that begin at a pole

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 3816c8f..d1afdaa 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -237,7 +237,7 @@ def solve_vincenty(a, f, lambda12, phi1, phi2):
 def _solve_NEA(alpha0, alpha1, beta1):
     """ See Karney (2013) """
     sigma1 = atan2(sin(beta1), cos(alpha1)*cos(beta1))
-    omega1 = atan2(sin(alpha0)*sin(sigma1), cos(sigma1))
+    omega1 = atan2(sin(alpha0)*sin(beta1), cos(alpha1)*cos(beta1))
     return sigma1, omega1
 
 def _solve_NEB(alpha0, alpha1, beta1, beta2):
-- 
2.43.0


From dad97b72710666e2f181aa2a61b057a5873ab760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 122/142] fix: latitudes of great circle segments that cross
 the equator or begin on it

---
 karta/vector/vectorgeo.pyx | 39 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 2a9f507..df9e487 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -64,45 +64,30 @@ cdef int fsign(double a):
 cdef int bndlat_sph(Vector2 pt0, Vector2 pt1, double *ymin, double *ymax):
     """ Return the bounding latitudes of a great circle segment on a sphere.
     Returns 0 on success and 1 if the segment is degenerate. """
-    cdef int s0 = fsign(pt0.y)
-    cdef int s1 = fsign(pt1.y)
-    cdef double faz, baz
+    cdef double faz, baz, vertex
 
     cdef double dlam = (pt1.x-pt0.x) * M_PI / 180.0
     cdef double phi0 = pt0.y * M_PI / 180.0
     cdef double phi1 = pt1.y * M_PI / 180.0
 
+    ymin[0] = fmin(pt0.y, pt1.y)
+    ymax[0] = fmax(pt0.y, pt1.y)
     if dlam != 0.0:
         faz = atan2(sin(dlam)*cos(phi1),
                     cos(phi0)*sin(phi1) - sin(phi0)*cos(phi1)*cos(dlam))
         baz = atan2(sin(-dlam)*cos(phi0),
                     cos(phi1)*sin(phi0) - sin(phi1)*cos(phi0)*cos(-dlam))
+        # latitude of the great circle where it is farthest from the equator
+        vertex = atan2(sqrt(sin(phi0)**2 + (cos(phi0)*cos(faz))**2),
+                       fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI
+        if cos(faz) > 0.0 and cos(baz) > 0.0:
+            # both azimuths "point up"
+            ymax[0] = fmax(ymax[0], vertex)
+        elif cos(faz) < 0.0 and cos(baz) < 0.0:
+            # both azimuths "point down"
+            ymin[0] = fmin(ymin[0], -vertex)
     elif phi0 == phi1:
         return 1
-
-    if dlam == 0.0 or (s0 != s1):
-        ymin[0] = fmin(pt0.y, pt1.y)
-        ymax[0] = fmax(pt0.y, pt1.y)
-    else:
-        if s0 == 1: # northern
-            ymin[0] = fmin(phi0, phi1) * 180.0 / M_PI
-
-            if ((fabs((faz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI) and
-                (fabs((baz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI)):
-                # both azimuths "point up"
-                ymax[0] = acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI
-            else:
-                ymax[0] = fmax(phi0, phi1) * 180.0 / M_PI
-
-        else:
-            ymax[0] = fmax(phi0, phi1) * 180.0 / M_PI
-
-            if ((fabs((faz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI) and
-                (fabs((baz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI)):
-                # both azimuths "point down"
-                ymin[0] = -acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI
-            else:
-                ymin[0] = fmin(phi0, phi1) * 180.0 / M_PI
     return 0
 
 def bbox(CoordString cs):
-- 
2.43.0


From 318f10ad3cc11638b49f323506092e8deaa8919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 123/142] fix: boxes of geographical lines and polygons that
 cross the dateline or surround a pole

---
 karta/vector/dateline.pyx | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index ebf0134..a4cbb33 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -1,4 +1,4 @@
-from libc.math cimport fmin, fmax, NAN
+from libc.math cimport fmin, fmax, sin, M_PI, NAN
 from vectorgeo cimport Vector2, fsign, bndlat_sph
 from coordstring.coordstring cimport CoordString
 
@@ -19,9 +19,9 @@ cpdef int crosses_dateline(double x0, double x1):
 def bbox(CoordString cs):
     """ Return a dateline-aware bbox for geographical coordinates. """
     cdef double xmin, ymin, xmax, ymax, segymin, segymax
-    cdef double x0, y0, x1, y1
+    cdef double x0, y0, x1, y1, lo, hi, zsum
     cdef double rot
-    cdef int i = 0, retint = 0, xdateline = 0, n = len(cs)
+    cdef int i = 0, n = len(cs)
 
     if n == 0:
         return (NAN, NAN, NAN, NAN)
@@ -29,33 +29,53 @@ def bbox(CoordString cs):
     if cs.ring:
         n += 1
 
-    xmin = xmax = cs.getX(0)
-    ymin = ymax = cs.getY(0)
-    rot = 0
+    # longitudes from *lo* to *hi* are continuous across the dateline, *xmin*
+    # and *xmax* are the coordinates that they belong to
     x0 = cs.getX(0)
     y0 = cs.getY(0)
+    xmin = xmax = lo = hi = x0
+    ymin = ymax = y0
+    rot = 0
+    zsum = 0
 
     while i != n:
         x1 = cs.getX(i)
         y1 = cs.getY(i)
-        retint = bndlat_sph(Vector2(x0, y0), Vector2(x1, y1), &segymin, &segymax)
-        if retint == 0:
+        if i != 0:
+            zsum += sin(y1 * M_PI / 180.0)
+        if bndlat_sph(Vector2(x0, y0), Vector2(x1, y1), &segymin, &segymax) == 0:
             ymin = fmin(ymin, segymin)
             ymax = fmax(ymax, segymax)
-        xdateline = crosses_dateline(x0, x1)
-        if xdateline != 0:
-            rot -= xdateline * 360.0
-            xmin = fmin(xmin, x1+rot)
-            xmax = fmax(xmax, x1+rot)
-        else:
-            if x0 > x1:
-                xmin = fmin(xmin, x1)
-            else:
-                xmax = fmax(xmax, x1)
+        while x1 - x0 > 180:
+            rot -= 360
+            x0 += 360
+        while x1 - x0 < -180:
+            rot += 360
+            x0 -= 360
+        if x1 + rot < lo:
+            xmin = x1
+            lo = x1 + rot
+        if x1 + rot > hi:
+            xmax = x1
+            hi = x1 + rot
         x0 = x1
         y0 = y1
         i += 1
 
-    xmin = (xmin+180) % 360 - 180
-    xmax = (xmax+180) % 360 - 180
-    return (xmin, ymin, xmax, ymax)
+    if cs.ring and rot != 0:
+        # around a pole, which is inside
+        if zsum > 0:
+            ymax = 90.0
+        else:
+            ymin = -90.0
+
+    if hi - lo >= 360:
+        return (-180.0, ymin, 180.0, ymax)
+
+    return (reduce_lon(xmin), ymin, reduce_lon(xmax), ymax)
+
+cdef double reduce_lon(double x):
+    """ Return a longitude in the range [-180, 180] """
+    if x < -180 or x > 180:
+        return (x+180) % 360 - 180
+    return x
-- 
2.43.0


From ed98a5afed4b9e958304e8ff1e0adaef8ccd6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 124/142] fix: boxes of polygons in another coordinate system
 include the closing segment

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 08463c6..289ff72 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -447,7 +447,8 @@ class MultiVertexMixin(object):
         """
         if crs is not None and (crs != self.crs):
             cs = CoordString(list(zip(
-                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))))
+                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))),
+                ring=self._vertices.ring)
         else:
             cs = self._vertices
             crs = self.crs
@@ -636,7 +637,8 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         """
         if crs is not None and (crs != self.crs):
             cs = CoordString(list(zip(
-                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))))
+                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))),
+                ring=self._vertices.ring)
         else:
             cs = self._vertices
             crs = self.crs
-- 
2.43.0


From 8290ba4c0696c8d2228b41b2ea481c19b1ffbee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 125/142] fix: boxes of sets of geographical geometries by the
 dateline

---
 karta/vector/dateline.pyx | 21 +++++++++++++++++++++
 karta/vector/geometry.py  |  4 +++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index a4cbb33..894b1e5 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -79,3 +79,24 @@ cdef double reduce_lon(double x):
     if x < -180 or x > 180:
         return (x+180) % 360 - 180
     return x
+
+def merge_bboxes(bboxes):
+    """ Return the smallest bbox that contains all of a list of bboxes in
+    geographical coordinates, any of which may cross the dateline. """
+    arcs = sorted([((bb[0]+180) % 360, bb[2]-bb[0] + (360 if bb[2] < bb[0] else 0),
+                    bb[0], bb[2]) for bb in bboxes])
+    ymin = min([bb[1] for bb in bboxes])
+    ymax = max([bb[3] for bb in bboxes])
+
+    # longitudes outside of the merged bbox are the largest gap between others
+    end, xend = max([(lo + width, x1) for (lo, width, _, x1) in arcs])
+    end -= 360
+    gap = 0
+    for lo, width, x0, x1 in arcs:
+        if lo - end > gap:
+            gap, xmin, xmax = lo - end, x0, xend
+        if lo + width > end:
+            end, xend = lo + width, x1
+    if gap == 0:
+        return (-180.0, ymin, 180.0, ymax)
+    return (xmin, ymin, xmax, ymax)
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 289ff72..e5ab3b7 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -454,7 +454,7 @@ class MultiVertexMixin(object):
             crs = self.crs
 
         if isinstance(crs, GeographicalCRS):
-            return _cdateline.bbox(cs)
+            return _cdateline.merge_bboxes([(v[0], v[1], v[0], v[1]) for v in cs])
         else:
             return _cvectorgeo.bbox(cs)
 
@@ -1459,6 +1459,8 @@ class MultiVertexMultipartMixin(object):
     @cache_decorator("bbox")
     def bbox(self, crs=None):
         bbs = [part.bbox(crs=crs) for part in self]
+        if isinstance(crs or self.crs, GeographicalCRS):
+            return _cdateline.merge_bboxes(bbs)
         xmin = min([bb[0] for bb in bbs])
         ymin = min([bb[1] for bb in bbs])
         xmax = max([bb[2] for bb in bbs])
-- 
2.43.0


From fc140c8b1de5037c75e9866d87518b481c2ccd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 126/142] fix: search by bounding box among geographical
 geometries

---
 karta/vector/dateline.pyx | 22 ++++++++++++++++++++++
 karta/vector/geometry.py  | 22 +++++++++++++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index 894b1e5..126da1b 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -100,3 +100,25 @@ def merge_bboxes(bboxes):
     if gap == 0:
         return (-180.0, ymin, 180.0, ymax)
     return (xmin, ymin, xmax, ymax)
+
+def bboxes_overlap(bb0, bb1):
+    """ Whether bboxes in geographical coordinates overlap or touch. """
+    if bb0[3] < bb1[1] or bb1[3] < bb0[1]:
+        return False
+    if bb0[2] < bb0[0] and bb1[2] < bb1[0]:
+        return True
+    if bb0[2] < bb0[0] or bb1[2] < bb1[0]:      # one crosses the dateline
+        return bb0[0] <= bb1[2] or bb1[0] <= bb0[2]
+    return bb0[0] <= bb1[2] and bb1[0] <= bb0[2]
+
+def bbox_within(bb0, bb1):
+    """ Whether a bbox in geographical coordinates is within another. """
+    if bb0[1] < bb1[1] or bb1[3] < bb0[3]:
+        return False
+    if bb1[0] == -180 and bb1[2] == 180:
+        return True
+    if bb0[2] < bb0[0] and bb1[0] <= bb1[2]:
+        return False
+    if bb0[0] <= bb0[2] and bb1[2] < bb1[0]:
+        return bb1[0] <= bb0[0] or bb0[2] <= bb1[2]
+    return bb1[0] <= bb0[0] and bb0[2] <= bb1[2]
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e5ab3b7..cc2bf26 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1417,7 +1417,11 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         """ Return Multipoint subset that is within a square bounding box
         given by (xmin, xymin, xmax, ymax).
         """
-        if hasattr(self, "quadtree"):
+        if isinstance(self.crs, GeographicalCRS) and bbox[0] > bbox[2]:
+            # across the dateline
+            indices = [i for (i, pt) in enumerate(self)
+                         if (bbox[0] < pt.x or pt.x < bbox[2]) and (bbox[1] < pt.y < bbox[3])]
+        elif hasattr(self, "quadtree"):
             indices = self.quadtree.search_within(*bbox)
             indices.sort()
         else:
@@ -1532,6 +1536,12 @@ class MultiVertexMultipartMixin(object):
             return range(len(self))
         return self.rtree.search_overlapping(geom.bbox())
 
+    def _search_bboxes(self, test, bbox, max_results):
+        """ Return the indices of members with a bounding box that passes a
+        test with *bbox*, for geographical coordinates. """
+        indices = [i for (i, part) in enumerate(self) if test(part.bbox(), bbox)]
+        return indices[:max_results] if max_results >= 0 else indices
+
     def within_bbox(self, bbox, max_results=-1):
         """ Return Multipart geometry representing member geometries that are
         contained by a bounding box.
@@ -1541,7 +1551,10 @@ class MultiVertexMultipartMixin(object):
         bbox : tuple
             (xmin, ymin, xmax, ymax)
         """
-        indices = self.rtree.search_within(bbox, max_results=max_results)
+        if isinstance(self.crs, GeographicalCRS):
+            indices = self._search_bboxes(_cdateline.bbox_within, bbox, max_results)
+        else:
+            indices = self.rtree.search_within(bbox, max_results=max_results)
         return self._subset(indices)
 
     def touching_bbox(self, bbox, max_results=-1):
@@ -1553,7 +1566,10 @@ class MultiVertexMultipartMixin(object):
         bbox : tuple
             (xmin, ymin, xmax, ymax)
         """
-        indices = self.rtree.search_overlapping(bbox, max_results=max_results)
+        if isinstance(self.crs, GeographicalCRS):
+            indices = self._search_bboxes(_cdateline.bboxes_overlap, bbox, max_results)
+        else:
+            indices = self.rtree.search_overlapping(bbox, max_results=max_results)
         return self._subset(indices)
 
     def touching(self, geom):
-- 
2.43.0


From 327e12f3c5c8aed672c9beb1400bea0eccc18960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 127/142] fix: boxes of empty sets and of segments beginning
 and ending at one meridian

---
 karta/vector/dateline.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index 126da1b..ee6aff5 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -43,15 +43,15 @@ def bbox(CoordString cs):
         y1 = cs.getY(i)
         if i != 0:
             zsum += sin(y1 * M_PI / 180.0)
-        if bndlat_sph(Vector2(x0, y0), Vector2(x1, y1), &segymin, &segymax) == 0:
-            ymin = fmin(ymin, segymin)
-            ymax = fmax(ymax, segymax)
         while x1 - x0 > 180:
             rot -= 360
             x0 += 360
         while x1 - x0 < -180:
             rot += 360
             x0 -= 360
+        if bndlat_sph(Vector2(x0, y0), Vector2(x1, y1), &segymin, &segymax) == 0:
+            ymin = fmin(ymin, segymin)
+            ymax = fmax(ymax, segymax)
         if x1 + rot < lo:
             xmin = x1
             lo = x1 + rot
@@ -83,6 +83,9 @@ cdef double reduce_lon(double x):
 def merge_bboxes(bboxes):
     """ Return the smallest bbox that contains all of a list of bboxes in
     geographical coordinates, any of which may cross the dateline. """
+    if len(bboxes) == 0:
+        return (NAN, NAN, NAN, NAN)
+
     arcs = sorted([((bb[0]+180) % 360, bb[2]-bb[0] + (360 if bb[2] < bb[0] else 0),
                     bb[0], bb[2]) for bb in bboxes])
     ymin = min([bb[1] for bb in bboxes])
-- 
2.43.0


From e96a511f68145e9596fe29484771b52ac1b50eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 128/142] fix: equally spaced points along lines with short,
 repeated or three-dimensional segments

---
 karta/vector/geometry.py | 83 ++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 51 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index cc2bf26..f7de1ee 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -909,26 +909,12 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         dx : float
             spacing of points
         """
-        remainder = 0
-        pt0 = self[0]
-        vertices = [pt0.vertex()]
-
-        for seg in self.segments:
-            pos = 0
-            az = seg[0].azimuth(seg[1])
-
-            while pos < seg.length:
-                distance_to_endpt = pt0.distance(seg[1])
-                if distance_to_endpt >= dx:
-                    pt1 = pt0.walk(dx - remainder, az)
-                    pos += dx - remainder
-                    vertices.append(pt1.vertex())
-                    remainder = 0
-                    pt0 = pt1
-                else:
-                    remainder = distance_to_endpt
-                    pos = seg.length
-                    pt0 = seg[1]
+        if dx <= 0:
+            raise ValueError("spacing must be positive")
+
+        cumulength = self.cumulength()
+        n = int(math.floor(cumulength[-1] / dx * (1 + 1e-12))) + 1
+        vertices = self._vertices_at([i*dx for i in range(n)], cumulength)
         return Multipoint(vertices, crs=self.crs)
 
     def to_npoints(self, n):
@@ -939,39 +925,34 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         n : int
             number of points to return
         """
-        segments = self.segments
-        Ltotal = self.cumulength()[-1]
-        step = Ltotal / float(n-1)
-        step_remaining = step
-
-        vertices = [self[0].vertex()]
-        x = 0.0
-        pos = self[0]
-        seg = next(segments)
-        seg_remaining = seg.displacement()
-
-        while x < Ltotal-1e-8:
-            direction = seg[0].azimuth(seg[1])
-
-            if step_remaining <= seg_remaining:
-                pos = pos.walk(step_remaining, direction)
-                x += step_remaining
-                seg_remaining -= step_remaining
-                step_remaining = step
-                vertices.append(pos.vertex())
-                seg._vertices[0] = np.array(pos._vertex, dtype=np.float64)
+        cumulength = self.cumulength()
+        step = cumulength[-1] / max(n-1, 1)
+        vertices = self._vertices_at([i*step for i in range(n-1)], cumulength)
+        if n > 0:
+            vertices.append(self[-1 if n > 1 else 0].vertex())
+        return Multipoint(vertices, crs=self.crs)
 
+    def _vertices_at(self, distances, cumulength):
+        """ Return the vertices at increasing distances along the line. """
+        vertices = []
+        i = 0
+        for d in distances:
+            while i < len(cumulength)-2 and d >= cumulength[i+1]:
+                i += 1
+            start, end = self[i], self[min(i+1, len(self)-1)]
+            if d <= cumulength[i]:
+                vertices.append(start.vertex())
+            elif d >= cumulength[-1]:
+                vertices.append(end.vertex())
             else:
-                pos = seg[1]
-                x += seg_remaining
-                step_remaining -= seg_remaining
-
-                seg = next(segments, seg)
-                seg_remaining = seg.displacement()
-
-        if len(vertices) == n-1:
-            vertices.append(seg[-1].vertex())
-        return Multipoint(vertices, crs=self.crs)
+                t = (d - cumulength[i]) / (cumulength[i+1] - cumulength[i])
+                u, v = start.vertex(), end.vertex()
+                xy = Point(u[:2], crs=self.crs)
+                end_xy = Point(v[:2], crs=self.crs)
+                if u[:2] != v[:2]:
+                    xy = xy.walk(t*xy.distance(end_xy), xy.azimuth(end_xy))
+                vertices.append(xy.vertex() + tuple([z0 + t*(z1-z0) for (z0, z1) in zip(u[2:], v[2:])]))
+        return vertices
 
     def displacement(self):
         """ Returns the distance between the first and last vertex.
-- 
2.43.0


From b387dfa6586ccb8d5e6440962ce010c7c22d31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 129/142] fix: walking from three-dimensional points keeps
 their height

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f7de1ee..9aaa2eb 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -255,7 +255,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
             x1, y1 = self.crs.project(self.x, self.y, inverse=True)
             x2, y2, _ = self.crs.forward(x1, y1, azimuth, distance, radians=False)
             x, y = self.crs.project(x2, y2)
-        return Point((x, y), properties=self.properties, crs=self.crs)
+        return Point((x, y) + tuple(self._vertex[2:]), properties=self.properties, crs=self.crs)
 
     def distance(self, other, projected=True):
         """ Returns a distance to another Point. Distances is computed in one
-- 
2.43.0


From d3c821da151867882b961128ebcbe27643e690cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 130/142] fix: default spacing of profiles on grids with
 negative cell sizes

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 9b27568..e476fda 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1035,7 +1035,7 @@ class RegularGrid(Grid):
             grid value at sample points
         """
         if resolution is None:
-            resolution = min(self.transform[2:4])
+            resolution = min([abs(d) for d in self.resolution])
         points = line.to_points(resolution)
         z = self.sample(*points.coords(crs=self.crs)[:2], **kw)
         if len(self.bands) != 1:
-- 
2.43.0


From 55ac3ffc7ee75a263d55c0a9e09d2b8655a50ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 131/142] fix: tiles of points at the antimeridian and in
 systems with another datum

---
 karta/tile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/tile.py b/karta/tile.py
index 7cd2076..dcbd41a 100644
--- a/karta/tile.py
+++ b/karta/tile.py
@@ -68,11 +68,11 @@ def tile_from_point(point, zoom):
     dlon = 256
     dlat = 256
 
-    lon0, lat0 = point.crs.project(*point.vertex()[:2], inverse=True)
+    lon0, lat0 = point.vertex(LonLatWGS84)[:2]
     c = 128/math.pi * 2**z
     x0 = c * (lon0*math.pi/180+math.pi)
     y0 = c * (math.pi-math.log(math.tan(math.pi/4+lat0*math.pi/360)))
 
-    x = int(x0 // dlon)
+    x = int(x0 // dlon) % 2**z
     y = int(y0 // dlat)
     return Tile(z, x, y)
-- 
2.43.0


From 9a8a9635d53c98d5374a8b866b875f006137c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 132/142] fix: quadtrees of positions that differ by rounding

---
 karta/vector/quadtree.h | 58 +++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/karta/vector/quadtree.h b/karta/vector/quadtree.h
index 68855de..1034dee 100644
--- a/karta/vector/quadtree.h
+++ b/karta/vector/quadtree.h
@@ -47,8 +47,10 @@ typedef struct QuadTreeNonleafNode {
 // forward declarations
 void qt_free_node(NodePtrUnion);
 NonleafNode *qt_split(LeafNode*);
+void qt_grow(LeafNode*);
 Quadrant get_quadrant(Bbox*, Position*);
 int isduplicate(LeafNode*, Position*);
+int isdivisible(Bbox*);
 int iswithin(Bbox*, Position*);
 int overlaps(Bbox*, Bbox*);
 
@@ -116,7 +118,10 @@ NonleafNode *qt_insert(NodePtrUnion node_union, Position position, int *dup) {
 
             leaf->positions[leaf->count] = position;
             leaf->count++;
-            if (leaf->count >= leaf->max_positions) {
+            if (leaf->count >= leaf->max_positions && !isdivisible(leaf->bbox)) {
+                qt_grow(leaf);
+            }
+            else if (leaf->count >= leaf->max_positions) {
                 retnode = qt_split(leaf);
                 if (loops != 0) {
                     retnode = NULL;
@@ -212,16 +217,18 @@ NonleafNode *qt_split(LeafNode *node) {
     // connect parent to grandparent
     NonleafNode *grandparent = node->parent;
     Quadrant quad;
-    Position p;
     if (grandparent != NULL) {
-        p.x = xmid;
-        p.y = ymid;
-        quad = get_quadrant(grandparent->bbox, &p);
-        switch (quad) {
-            case LOWERLEFT: grandparent->llnode.nonleafnode = parent; break;
-            case UPPERLEFT: grandparent->ulnode.nonleafnode = parent; break;
-            case LOWERRIGHT: grandparent->lrnode.nonleafnode = parent; break;
-            case UPPERRIGHT: grandparent->urnode.nonleafnode = parent; break;
+        if (grandparent->llnode.leafnode == node) {
+            grandparent->llnode.nonleafnode = parent;
+        }
+        else if (grandparent->ulnode.leafnode == node) {
+            grandparent->ulnode.nonleafnode = parent;
+        }
+        else if (grandparent->lrnode.leafnode == node) {
+            grandparent->lrnode.nonleafnode = parent;
+        }
+        else {
+            grandparent->urnode.nonleafnode = parent;
         }
     }
 
@@ -253,17 +260,25 @@ NonleafNode *qt_split(LeafNode *node) {
     }
 
     // check whether any child leaf is still over capacity
+    LeafNode *full = NULL;
     if (node_ul->count >= node_ul->max_positions) {
-        parent->ulnode.nonleafnode = qt_split(node_ul);
+        full = node_ul;
     }
     else if (node_ur->count >= node_ur->max_positions) {
-        parent->urnode.nonleafnode = qt_split(node_ur);
+        full = node_ur;
     }
     else if (node_ll->count >= node_ll->max_positions) {
-        parent->llnode.nonleafnode = qt_split(node_ll);
+        full = node_ll;
     }
     else if (node_lr->count >= node_lr->max_positions) {
-        parent->lrnode.nonleafnode = qt_split(node_lr);
+        full = node_lr;
+    }
+
+    if (full != NULL && isdivisible(full->bbox)) {
+        qt_split(full);
+    }
+    else if (full != NULL) {
+        qt_grow(full);
     }
 
     // destroy the old node, removing the bbox reference to preserve it
@@ -274,6 +289,13 @@ NonleafNode *qt_split(LeafNode *node) {
     return parent;
 }
 
+// increase the capacity of a leaf that cannot be split
+void qt_grow(LeafNode *node) {
+    node->max_positions *= 2;
+    node->positions = (Position*) realloc(node->positions,
+                                          (node->max_positions+1) * sizeof(Position));
+}
+
 Pool *qt_search_within(NodePtrUnion node_union, Bbox *bbox) {
     Pool *results = pool_new(sizeof(int*), 64);
     Pool *quadrants = pool_new(sizeof(NodePtrUnion*), 16);
@@ -366,6 +388,14 @@ Quadrant get_quadrant(Bbox *bbox, Position *position) {
     }
 }
 
+// whether there are coordinates between the sides of a bbox
+int isdivisible(Bbox *bbox) {
+    double xmid = 0.5*(bbox->xmin + bbox->xmax);
+    double ymid = 0.5*(bbox->ymin + bbox->ymax);
+    return ((xmid > bbox->xmin) && (xmid < bbox->xmax)) ||
+           ((ymid > bbox->ymin) && (ymid < bbox->ymax));
+}
+
 int isduplicate(LeafNode *node, Position *pos) {
     for (int i=0; i!=node->count; i++) {
         if ((pos->x == node->positions[i].x) &&
-- 
2.43.0


From 51c00efb44972cd4c9470fe3cd3268e09b73a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 133/142] fix: equally spaced points along geographical lines
 with short segments

---
 karta/vector/geometry.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 9aaa2eb..e082043 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -912,9 +912,32 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         if dx <= 0:
             raise ValueError("spacing must be positive")
 
-        cumulength = self.cumulength()
-        n = int(math.floor(cumulength[-1] / dx * (1 + 1e-12))) + 1
-        vertices = self._vertices_at([i*dx for i in range(n)], cumulength)
+        if not isinstance(self.crs, GeographicalCRS):
+            cumulength = self.cumulength()
+            n = int(math.floor(cumulength[-1] / dx * (1 + 1e-12))) + 1
+            vertices = self._vertices_at([i*dx for i in range(n)], cumulength)
+            return Multipoint(vertices, crs=self.crs)
+
+        remainder = 0
+        pt0 = self[0]
+        vertices = [pt0.vertex()]
+
+        for seg in self.segments:
+            pos = 0
+            az = seg[0].azimuth(seg[1])
+
+            while pos < seg.length:
+                distance_to_endpt = pt0.distance(seg[1])
+                if distance_to_endpt >= dx - remainder:
+                    pt1 = pt0.walk(dx - remainder, az)
+                    pos += dx - remainder
+                    vertices.append(pt1.vertex())
+                    remainder = 0
+                    pt0 = pt1
+                else:
+                    remainder += distance_to_endpt
+                    pos = seg.length
+                    pt0 = seg[1]
         return Multipoint(vertices, crs=self.crs)
 
     def to_npoints(self, n):
-- 
2.43.0


From 45939b36d97045c1034d4d73dfbe20eb018776c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 134/142] fix: hillshade of grids with cells of any size

---
 karta/raster/misc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index 9d8cda1..ec11faf 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -189,9 +189,8 @@ def hillshade(grid, azimuth=330.0, elevation=60.0, band=0):
     dxgrid, dygrid = gradient(grid, band=band)
     dx = dxgrid[:,:,0]
     dy = dygrid[:,:,0]
-    res = grid.resolution
-    u = np.array((np.full_like(dx, res[0]), np.zeros_like(dx), dx))
-    v = np.array((np.zeros_like(dy), np.full_like(dy, res[1]), dy))
+    u = np.array((np.ones_like(dx), np.zeros_like(dx), dx))
+    v = np.array((np.zeros_like(dy), np.ones_like(dy), dy))
     w = np.cross(u, v, axisa=0, axisb=0)
     wunit = w / np.atleast_3d(np.sqrt(np.sum(w**2, axis=-1)))
 
-- 
2.43.0


From 5a4df50616fdb83c8ef5050326b5118e0e699bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 135/142] fix: masking by polygons with sub-polygons

---
 karta/raster/grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e476fda..b0b916a 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -621,14 +621,19 @@ class RegularGrid(Grid):
 
         ny, nx = self.size
         msk = np.zeros([ny, nx], dtype=np.bool)
-        for poly in polys:
 
+        def ring_mask(poly):
             x, y = poly.coords(self.crs)[:2]
             if not poly.isclockwise():
                 x = x[::-1]
                 y = y[::-1]
 
-            _msk = mask_poly(x, y, nx, ny, self.transform)
+            return mask_poly(x, y, nx, ny, self.transform)
+
+        for poly in polys:
+            _msk = ring_mask(poly)
+            for sub in poly.subs:
+                _msk = (_msk & ~ring_mask(sub))
             msk = (msk | _msk)
 
         if inplace:
-- 
2.43.0


From 7b57ec057b31ec08b372fbb6167511e20ad44455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 136/142] fix: mask_by_poly on skewed grids and grids with
 negative dx

---
 karta/raster/grid.py | 56 ++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index b0b916a..ed089ce 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1321,44 +1321,30 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
     """
     mask = np.zeros((ny, nx), dtype=np.int8)
 
-    # find left southernmost index (will start and end on this point)
-    x0, y0 = xpoly[0], ypoly[0]
-    i_bot = 0
-    for i in range(1, len(ypoly)):
-        if ypoly[i] < y0 or (ypoly[i] == y0 and xpoly[i] < x0):
-            x0 = xpoly[i]
-            y0 = ypoly[i]
-            i_bot = i
-
-    x0 = xpoly[i_bot]
-    y0 = ypoly[i_bot]
-
-    # compute the grid indices of the starting point
     ta, tb, tc, td, te, tf = transform
 
-    # normalize grid transform so increasing i, j corresponds to north, east
-    if tc < 0:
-        ta = ta + nx*tc
-        tc = -tc
-
+    # normalize grid transform so increasing i corresponds to north
     if td < 0:
-        tb = tb + ny*td
-        td = -td
+        ta, tb = ta + ny*te, tb + ny*td
+        td, te = -td, -te
 
-    # convert segment slopes to grid index units
-    aspect = td/tc
+    # grid index coordinates of the polygon vertices
+    det = tc*td - te*tf
+    ipoly = [(tc*(y-tb) - tf*(x-ta)) / det for (x, y) in zip(xpoly, ypoly)]
+    jpoly = [(td*(x-ta) - te*(y-tb)) / det for (x, y) in zip(xpoly, ypoly)]
+
+    # find left southernmost index (will start and end on this point)
+    i_bot = min(range(len(ipoly)), key=lambda k: (ipoly[k], jpoly[k]))
 
-    i0 = int(round((y0-tb - tf/tc*(x0-ta)) / (td - tf*te/tc)))
-    j0 = int(round((x0-ta - te/td*(y0-tb)) / (tc - te*tf/td)))
+    y0, x0 = ipoly[i_bot], jpoly[i_bot]
+    i0, j0 = int(round(y0)), int(round(x0))
 
-    for el in range(1, len(xpoly)+1):
-        idx = (el + i_bot) % len(xpoly)
-        x1 = xpoly[idx]
-        y1 = ypoly[idx]
+    for el in range(1, len(ipoly)+1):
+        idx = (el + i_bot) % len(ipoly)
+        y1, x1 = ipoly[idx], jpoly[idx]
 
         # (Unbounded) grid indices of the segment end points
-        i1 = int(round((y1-tb - tf/tc*(x1-ta)) / (td - tf*te/tc)))
-        j1 = int(round((x1-ta - te/td*(y1-tb)) / (tc - te*tf/td)))
+        i1, j1 = int(round(y1)), int(round(x1))
 
         # If segment is horizontal or off-grid, ignore
         if ((0 <= i0 < ny) and (0 <= i1 < ny)) or (y1 != y0):
@@ -1367,7 +1353,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i0, i1):
                     if (0 <= i < ny):
-                        j = int(round((i-i0) * (x1-x0)/(y1-y0) * aspect + j0))
+                        j = int(round((i-i0) * (x1-x0)/(y1-y0) + j0))
                         if j < nx:
                             mask[i, max(0, j):] += 1
 
@@ -1375,14 +1361,12 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i1, i0):
                     if (0 <= i < ny):
-                        j = int(round((i-i1) * (x1-x0)/(y1-y0) * aspect + j1))
+                        j = int(round((i-i1) * (x1-x0)/(y1-y0) + j1))
                         if j < nx:
                             mask[i, max(0, j):] -= 1
 
-        x0 = x1
-        y0 = y1
-        i0 = i1
-        j0 = j1
+        x0, y0 = x1, y1
+        i0, j0 = i1, j1
 
     return mask.astype(np.bool)
 
-- 
2.43.0


From 2f1a379c477edc16346390e40f6813a5cf219259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 137/142] fix: gridpoints with negative or skewed cells, lists,
 and many points in a cell

---
 karta/raster/grid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ed089ce..132cb9c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1272,8 +1272,11 @@ def gridpoints(x, y, z, transform, crs):
     crs : karta.crs.CRS subclass
         coordinate reference system object
     """
-    ny = int((np.max(y) - transform[1]) // transform[3]) + 1
-    nx = int((np.max(x) - transform[0]) // transform[2]) + 1
+    I, J = crfuncs.get_positions_vec(tuple(map(float, transform)),
+                                     np.array(x, dtype=np.float64),
+                                     np.array(y, dtype=np.float64))
+    ny = int(np.floor(np.max(I) + 0.5)) + 1
+    nx = int(np.floor(np.max(J) + 0.5)) + 1
     grid = RegularGrid(transform, values=np.empty([ny, nx]), crs=crs,
                        nodata_value=np.nan)
 
@@ -1286,10 +1289,10 @@ def gridpoints(x, y, z, transform, crs):
                                        J.astype(np.int32), z, grid.nodata)
         if err != 0:
             raise RuntimeError("failure in fillarray_double")
-    except ValueError:
+    except (TypeError, ValueError):
         # Fast version works when *z* is of type double (np.float64).
         # Python fallback for other types
-        counts = np.zeros([ny, nx], dtype=np.int16)
+        counts = np.zeros([ny, nx], dtype=np.int64)
         for (i,j,z_) in zip(I, J, z):
             array[i,j] += z_
             counts[i,j] += 1
-- 
2.43.0


From 13285d6c53c23426199f9b0e8f66f515da1f9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 138/142] fix: release the result pool of a quadtree search

---
 karta/vector/quadtree.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/quadtree.pyx b/karta/vector/quadtree.pyx
index 7769fd8..8cb202f 100644
--- a/karta/vector/quadtree.pyx
+++ b/karta/vector/quadtree.pyx
@@ -53,6 +53,7 @@ cdef extern from "quadtree.h":
     void qt_free_node(NodePtrUnion)
     Pool *qt_search_within(NodePtrUnion, Bbox*)
     char *pool_pop(Pool*, int)
+    void pool_destroy(Pool*)
 
 cdef class QuadTree:
     cdef int count
@@ -127,6 +128,7 @@ cdef class QuadTree:
             if idx[0] in self.duplicates:
                 out.extend(self.duplicates[idx[0]])
             out.append(idx[0])
+        pool_destroy(results)
         qt_free_bbox(bbox)
         return out
 
-- 
2.43.0


From 2bf8943b354ab6a1542d9069e45166392163e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 139/142] fix: release all memory of an R-tree, also of one
 that could not be built

---
 karta/vector/rtree.h   |  7 ++++---
 karta/vector/rtree.pyx | 13 +++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 7b566b3..d25b1f8 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -83,20 +83,21 @@ Bbox* rt_new_bbox() {
     return bb;
 }
 
+void rt_free_single(Node*);
+
 void rt_free(Node *node) {
     int i;
     if (node->type == LEAF) {
         for (i=0; i!=node->count; i++) {
             free(((Bbox**) node->children)[i]);
         }
-        free(node->indices);
-        free(node->bbox);
-        free(node);
     } else if (node->type == NONLEAF) {
         for (i=0; i!=node->count; i++) {
             rt_free(((Node**) node->children)[i]);
         }
     }
+    free(node->bbox);
+    rt_free_single(node);
 }
 
 void print_bbox(Bbox *bb) {
diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index 5c5b3ed..f5b163a 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -57,23 +57,23 @@ cdef class RTree:
         self.boxes = []
         cdef int i = 0, n = 0
         cdef object geom
-        cdef Node* root
+        cdef double xmin, ymin, xmax, ymax
 
-        root = rt_new_node(LEAF, LINEAR, maxchildren, NULL)
+        self.root = rt_new_node(LEAF, LINEAR, maxchildren, NULL)
         for geom in geometries:
             if not hasattr(geom, "bbox"):
                 raise AttributeError("cannot construct R-tree index from items "
                                      "missing a `bbox` attribute")
             _bb = geom.bbox()
             n = len(_bb) // 2
+            xmin, ymin, xmax, ymax = _bb[0], _bb[1], _bb[n], _bb[n+1]
             self.boxes.append((_bb[0], _bb[1], _bb[n], _bb[n+1]))
             bb = rt_new_bbox()
-            round_outward(bb, _bb[0], _bb[1], _bb[n], _bb[n+1])
-            root = rt_insert(root, bb, i)
+            round_outward(bb, xmin, ymin, xmax, ymax)
+            self.root = rt_insert(self.root, bb, i)
             i += 1
 
         self.count = i
-        self.root = root
         return
 
     def __dealloc__(self):
@@ -109,10 +109,11 @@ cdef class RTree:
         """ Return a sorted list of geometries that overlap a bounding box to
         the precision of the index. """
         cdef Pool* result
+        cdef double xmin = bbox[0], ymin = bbox[1], xmax = bbox[2], ymax = bbox[3]
         cdef Bbox* bb = rt_new_bbox()
         cdef list out = []
 
-        round_outward(bb, bbox[0], bbox[1], bbox[2], bbox[3])
+        round_outward(bb, xmin, ymin, xmax, ymax)
         result = rt_search_overlapping(self.root, bb, -1)
         while result.count != 0:
             out.append((<int*> pool_pop(result, result.count-1))[0])
-- 
2.43.0


From 6b5fc5e23e7919f9a8c88cdc5abe10bd82e4a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 140/142] fix: RTree with too few children per node ended the
 process

---
 karta/vector/rtree.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index f5b163a..55f7c0d 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -55,6 +55,8 @@ cdef class RTree:
     def __init__(self, list geometries, maxchildren=50):
         self.root = NULL
         self.boxes = []
+        if maxchildren < 4:
+            raise ValueError("maxchildren must be at least 4")
         cdef int i = 0, n = 0
         cdef object geom
         cdef double xmin, ymin, xmax, ymax
-- 
2.43.0


From 0f880cff49e18b01f17f277018d101adc530aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 141/142] fix: QuadTree with a leaf capacity below one wrote
 outside of its memory

---
 karta/vector/quadtree.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/quadtree.pyx b/karta/vector/quadtree.pyx
index 8cb202f..3c71387 100644
--- a/karta/vector/quadtree.pyx
+++ b/karta/vector/quadtree.pyx
@@ -71,6 +71,8 @@ cdef class QuadTree:
         cdef dict duplicates = {}
         cdef tuple _bb
 
+        if leaf_capacity < 1:
+            raise ValueError("leaf_capacity must be at least 1")
         _bb = points.bbox()
         if len(_bb) == 4:
             xmin, ymin, xmax, ymax = _bb
-- 
2.43.0


From cd1469ac099c90eca5724bc31a76021caf75786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 142/142] fix: wide polygons across the dateline contain points
 far from most vertices

---
 karta/vector/contains.pyx | 52 ++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 0054e7c..6416db4 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -1,7 +1,7 @@
-from libc.math cimport fabs, fmin, fmax, sin, cos, M_PI
+from libc.math cimport fabs, fmin, fmax, sqrt, atan2, M_PI
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
-from vectorgeo cimport Vector2
+from vectorgeo cimport Vector2, Vector3, dot3, sph2cart
 
 cdef double isleft(Vector2 pt, Vector2 pt0, Vector2 pt1) nogil:
     """ tests whether *pt* is left of segment (pt0, pt1).
@@ -46,13 +46,45 @@ def contains(double x, double y, CoordString poly):
 
     return cnt != 0
 
+cdef double ring_area_sph(CoordString ring):
+    """ Area of the smaller side of a ring on a unit sphere, which is positive
+    if that side is to the left of the ring. """
+    cdef Vector3 c, p, q, u, v
+    cdef double norm, area = 0.0
+    cdef int i, n = len(ring)
+
+    # triangles from each segment to the center of the vertices
+    c = Vector3(0.0, 0.0, 0.0)
+    for i in range(n):
+        p = sph2cart(Vector2(ring.getX(i), ring.getY(i)))
+        c = Vector3(c.x + p.x, c.y + p.y, c.z + p.z)
+    norm = sqrt(dot3(c, c))
+    if norm == 0.0:
+        return 0.0
+    c = Vector3(c.x/norm, c.y/norm, c.z/norm)
+
+    p = sph2cart(Vector2(ring.getX(n-1), ring.getY(n-1)))
+    for i in range(n):
+        q = sph2cart(Vector2(ring.getX(i), ring.getY(i)))
+        u = Vector3(p.x-c.x, p.y-c.y, p.z-c.z)
+        v = Vector3(q.x-c.x, q.y-c.y, q.z-c.z)
+        area += 2*atan2(c.x*(u.y*v.z - u.z*v.y) + c.y*(u.z*v.x - u.x*v.z) +
+                        c.z*(u.x*v.y - u.y*v.x),
+                        1 + dot3(c, p) + dot3(p, q) + dot3(q, c))
+        p = q
+
+    while area > 2*M_PI:
+        area -= 4*M_PI
+    while area < -2*M_PI:
+        area += 4*M_PI
+    return area
+
 def contains_proj(double x, double y, CoordString poly, object crs):
     """ contains implementation for geographical coordinates.
     calls crs.inverse n times, making this relatively inefficient.
     """
     cdef double sum_az = 0.0, az0, az1
     cdef double x0, y0, x1, y1
-    cdef double cx = 0.0, cy = 0.0, cz = 0.0
     cdef int i
 
     if not poly.ring:
@@ -79,11 +111,6 @@ def contains_proj(double x, double y, CoordString poly, object crs):
         else:
             sum_az += (az1-az0)
 
-        # sum of the vertices as vectors
-        cx += cos(M_PI*y1/180.0)*cos(M_PI*x1/180.0)
-        cy += cos(M_PI*y1/180.0)*sin(M_PI*x1/180.0)
-        cz += sin(M_PI*y1/180.0)
-
         az0 = az1
         x0 = x1
         y0 = y1
@@ -91,9 +118,6 @@ def contains_proj(double x, double y, CoordString poly, object crs):
     if fabs(sum_az) < 180.0:
         return False
 
-    # the boundary winds around a point inside, and also around the antipodes
-    # of the interior
-    return (cx*cos(M_PI*y/180.0)*cos(M_PI*x/180.0) +
-            cy*cos(M_PI*y/180.0)*sin(M_PI*x/180.0) +
-            cz*sin(M_PI*y/180.0)) > 0.0
-
+    # the boundary winds around a point inside, and in the opposite direction
+    # around the antipodes of the interior
+    return (ring_area_sph(poly) > 0.0) == (sum_az < 0.0)
-- 
2.43.0

