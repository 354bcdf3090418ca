From 264e91a521a5cfb948054df1914143dacd25fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 01/37] fix: TableMedium.getN read past the table at its last
 wavelength and for NaN

---
 src/medium.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..9427084 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -88,10 +88,13 @@ namespace batoid {
 
         double TableMedium::getN(double wavelength) const {
             // Linear search.  Better for GPU's?  and not that painful for small arrays?
-            if (wavelength < _args[0])
+            if (!(wavelength >= _args[0]))
                 return NAN;
-            if (wavelength > _args[_size-1])
+            if (!(wavelength <= _args[_size-1]))
                 return NAN;
+            // Don't read past the end of the table at its last entry.
+            if (wavelength == _args[_size-1])
+                return _vals[_size-1];
             int upperIdx;
             for(upperIdx=1; upperIdx<_size; upperIdx++) {
                 if (wavelength < _args[upperIdx])
-- 
2.43.0


From a58a1de55ddbf0f82ea5872a16174f343773ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 02/37] fix: ObscPolygon.containsGrid wrote outside its output
 when nx != ny

---
 src/obscuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..1014c10 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -281,7 +281,7 @@ namespace batoid {
                         xptr++;
                     }
                 }
-                out[j*ny+i] = contained;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From ac42474cf62e53f041fda34e7941e55196f045bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 03/37] fix: ObscPolygon.containsGrid ignored the closing edge
 and repeated crossings

---
 src/obscuration.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 1014c10..eb8a010 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -275,11 +275,9 @@ namespace batoid {
             bool contained = false;
             auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
+                while (xptr != xinters.end() && xgrid[i] > *xptr) {
+                    contained = !contained;
+                    xptr++;
                 }
                 out[j*nx+i] = contained;
             }
-- 
2.43.0


From ca23460170d427185f35a5a80a579914027232f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 04/37] fix: ObscPolygon.containsGrid misread grids that are
 not contiguous doubles

---
 batoid/obscuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..680066a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
-- 
2.43.0


From d9e094c7c583704083fbe85e7a689e362dd3b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 05/37] fix: ObscPolygon kept using the caller's arrays

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 680066a..44105bc 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,8 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order='C')
+        self.ys = np.array(ys, dtype=float, order='C')
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From a58ba90f632f0cfd2441768899f8e39f83a62385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 06/37] fix: TableMedium reinterpreted the bits of tables that
 are not doubles, read past short ones

---
 batoid/medium.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..2465a13 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,10 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order='C')
+        self.ns = np.array(ns, dtype=float, order='C')
+        if self.wavelengths.shape != self.ns.shape:
+            raise ValueError("wavelengths and ns must have the same length")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
-- 
2.43.0


From b28ecfe8a068316866b63140b266aef5776c3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 07/37] fix: TableMedium.fromTxt loaded the packaged table when
 the named file could not be read

---
 batoid/medium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index 2465a13..f95bd93 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -88,7 +88,7 @@ class TableMedium(Medium):
         import os
         try:
             wavelength, n = np.loadtxt(filename, unpack=True, **kwargs)
-        except IOError:
+        except FileNotFoundError:
             import glob
             from . import datadir
             filenames = glob.glob(os.path.join(datadir, "**", "*.txt"))
-- 
2.43.0


From 5aaeb5d924b4192485815409b7d3b0e2d8fc575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 08/37] fix: Asphere kept using the caller's coefficients and
 reinterpreted the bits of integer ones

---
 batoid/surface.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..d4acc7a 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -378,7 +379,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
@@ -389,11 +390,9 @@ class Asphere(Surface):
             raise TypeError("coefs must be a list of floats")
 
         # padded_coefs starts at i=1, so the 0th term is a_1 r^2.
-        if imin != 1:
-            padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
-        else:
-            padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.concatenate(
+            [np.zeros(imin-1), np.asarray(coefs, dtype=float)]
+        )
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From b273cbe9e5ae0c8f0f3c42cfea905c274e7e1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 09/37] fix: sampled rays kept the caller's flux array,
 whatever its type

---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..a39495b 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -818,8 +818,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From fd779f78f174ed394b21a7b8bc66f7fb1609ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 10/37] fix: negative RayVector indices returned several rays,
 numpy integers a broken one

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index a39495b..823385c 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1317,7 +1317,7 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1329,7 +1329,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From d3ddec69a27edfd7c50f60c7cdc67c9a073c86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 11/37] fix: RayVector.fromStop transformed the caller's x and
 y in place

---
 batoid/rayVector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 823385c..5ca8a81 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -966,8 +966,10 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        # Copy, since x and y are transformed in place below.
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From d22a7fe299d14781949e48a6e67556bee71a5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 12/37] fix: Surface.normal read past the end of y when it is
 shorter than x

---
 batoid/surface.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index d4acc7a..ab7df07 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -39,20 +39,18 @@ class Surface(ABC):
         normal : array_like, shape (n, 3)
             Surface normals.
         """
-        xx = np.asfortranarray(x, dtype=float)
-        yy = np.asfortranarray(y, dtype=float)
+        xx, yy = np.broadcast_arrays(
+            np.asarray(x, dtype=float), np.asarray(y, dtype=float)
+        )
+        isScalar = xx.ndim == 0
+        xx = np.asfortranarray(np.atleast_1d(xx))
+        yy = np.asfortranarray(np.atleast_1d(yy))
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
-        size = len(xx.ravel())
 
         self._surface.normal(
-            xx.ctypes.data, yy.ctypes.data, size, out.ctypes.data
+            xx.ctypes.data, yy.ctypes.data, xx.size, out.ctypes.data
         )
-        try:
-            len(x)
-        except TypeError:
-            return out[0]
-        else:
-            return out
+        return out[0] if isScalar else out
 
     def intersect(self, rv, coordSys=None, coating=None):
         return intersect(self, rv, coordSys, coating)
-- 
2.43.0


From ae5dbdf455af71645ba1e27ee3e048a15724cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 13/37] fix: ObscPolygon read past ys when it is shorter than
 xs

---
 batoid/obscuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 44105bc..3221240 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -259,6 +259,8 @@ class ObscPolygon(Obscuration):
     def __init__(self, xs, ys):
         self.xs = np.array(xs, dtype=float, order='C')
         self.ys = np.array(ys, dtype=float, order='C')
+        if self.xs.ndim != 1 or self.xs.shape != self.ys.shape:
+            raise ValueError("xs and ys must be 1d and have the same length")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From fd46a0f3d8f9e8b75f607b4aeb52967b518e9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 14/37] fix: Optic ignored skip, so derived optics traced what
 was skipped

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From dfd35b669c43172655021b3f4c45b71f92ecac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 15/37] fix: Interfaces replaced the coatings they were given,
 derived optics lost theirs

---
 batoid/optic.py | 52 ++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..0f64317 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -762,12 +762,14 @@ class RefractiveInterface(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
+        if 'forwardCoating' not in self.__dict__:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in self.__dict__:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -800,12 +802,14 @@ class Mirror(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=1.0, transmissivity=0.0
-        )
+        if 'forwardCoating' not in self.__dict__:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=1.0, transmissivity=0.0
+            )
+        if 'reverseCoating' not in self.__dict__:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=1.0, transmissivity=0.0
+            )
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -828,10 +832,12 @@ class Detector(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        if 'forwardCoating' not in self.__dict__:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in self.__dict__:
+            self.reverseCoating = None
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -849,12 +855,14 @@ class Baffle(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
+        if 'forwardCoating' not in self.__dict__:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in self.__dict__:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 6e65539310e277bdb0077149a25fbe9ac333efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 16/37] fix: deriving an optic whose name starts with a
 sibling's name failed

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 0f64317..ec3adc3 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1445,7 +1445,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1608,7 +1608,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1656,7 +1656,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 4a2bd4c2c6f3355337c6411ea87b1852a5e05325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 17/37] fix: parsing an optic consumed the caller's config

---
 batoid/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..f866545 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,7 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    config = dict(config)
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +27,7 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    config = dict(config)
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +98,8 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    # Don't consume the caller's config
+    config = dict(config)
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From 648aebbb6358fa9a4a459770f5eeb30037f3c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 18/37] fix: CompoundOptic.traceSplit never finished once a ray
 had failed

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index ec3adc3..5732241 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1259,7 +1259,7 @@ class CompoundOptic(Optic):
             # Remove vignetted rays and rays with flux below threshold
             for rList in [rForward, rReverse]:
                 for i, rr in enumerate(rList):
-                    w = ~rr.vignetted & (rr.flux >= minFlux)
+                    w = ~rr.vignetted & ~rr.failed & (rr.flux >= minFlux)
                     rList[i] = RayVector(
                         rr.x[w], rr.y[w], rr.z[w],
                         rr.vx[w], rr.vy[w], rr.vz[w],
-- 
2.43.0


From 9b28cd29aa8cb6824330abf27710d1ddac29ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 19/37] fix: OPDScreen.rSplit called a method that doesn't
 exist

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 5732241..a2e4e6a 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -931,7 +931,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From 4dd185537396aec81fdc335cdd6f98a91d128046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 20/37] fix: copied and unpickled RayVectors shared or could
 not write their arrays

---
 batoid/rayVector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 5ca8a81..44a3391 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1317,6 +1317,10 @@ class RayVector:
          self._vx, self._vy, self._vz, self._t,
          self._wavelength, self._flux, self._vignetted,
          self._failed, self.coordSys) = args
+        # Own the arrays; unpickled ones may be shared or read-only.
+        for k, v in self.__dict__.items():
+            if isinstance(v, np.ndarray):
+                self.__dict__[k] = np.array(v, order='C')
 
     def __getitem__(self, idx):
         if isinstance(idx, Integral):
-- 
2.43.0


From 984ac154ad5ff6b2cebbd626ba824320fd283c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 21/37] fix: copied and unpickled Bicubics shared their arrays

---
 batoid/surface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/surface.py b/batoid/surface.py
index ab7df07..442b159 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -615,6 +615,10 @@ class Bicubic(Surface):
         (self._xs, self._ys, self._zs,
          self._dzdxs, self._dzdys, self._d2zdxdys, self.nanpolicy
         ) = args
+        # Own the arrays; unpickled ones may be shared or of any layout.
+        for k, v in self.__dict__.items():
+            if isinstance(v, np.ndarray):
+                self.__dict__[k] = np.array(v, dtype=float, order='C')
         self._x0 = self._xs[0]
         self._y0 = self._ys[0]
         self._dx = (self._xs[-1] - self._xs[0])/(len(self._xs)-1)
-- 
2.43.0


From 9d6dac2e0027c5b683b471cbe1bc2a56b8925f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 22/37] fix: rSplit left the split rays that had already failed
 undefined on a GPU

---
 src/batoid.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..14e0f8c 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -526,17 +526,17 @@ namespace batoid {
         rv.flux.syncToDevice();
         rv.vignetted.syncToDevice();
         rv.failed.syncToDevice();
-        rvSplit.x.syncState = SyncState::device;
-        rvSplit.y.syncState = SyncState::device;
-        rvSplit.z.syncState = SyncState::device;
-        rvSplit.vx.syncState = SyncState::device;
-        rvSplit.vy.syncState = SyncState::device;
-        rvSplit.vz.syncState = SyncState::device;
-        rvSplit.t.syncState = SyncState::device;
-        rvSplit.wavelength.syncState = SyncState::device;
-        rvSplit.flux.syncState = SyncState::device;
-        rvSplit.vignetted.syncState = SyncState::device;
-        rvSplit.failed.syncState = SyncState::device;
+        rvSplit.x.syncToDevice();
+        rvSplit.y.syncToDevice();
+        rvSplit.z.syncToDevice();
+        rvSplit.vx.syncToDevice();
+        rvSplit.vy.syncToDevice();
+        rvSplit.vz.syncToDevice();
+        rvSplit.t.syncToDevice();
+        rvSplit.wavelength.syncToDevice();
+        rvSplit.flux.syncToDevice();
+        rvSplit.vignetted.syncToDevice();
+        rvSplit.failed.syncToDevice();
 
         // Original RayVector will get replaced with refraction
         size_t size = rv.size;
-- 
2.43.0


From f0e3e74dbca6dbe2e3df7f19a566af7849c9071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 23/37] fix: comparing bundles of different lengths read past
 the shorter one

---
 src/dualView.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dualView.cpp b/src/dualView.cpp
index 5084d0a..6a0613f 100644
--- a/src/dualView.cpp
+++ b/src/dualView.cpp
@@ -47,6 +47,7 @@ namespace batoid {
 
     template<typename T>
     bool DualView<T>::operator==(const DualView<T>& rhs) const {
+        if (size != rhs.size) return false;
         // If both DualViews are currently synced to Device, do the comparison there.
         // Otherwise, copy to host and do comparison there.
         bool result{true};
-- 
2.43.0


From 16fdec8e6d4f856f132745816be49e58c6394126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 24/37] fix: Quadric and Asphere intersections gave NaN rays
 for conic = -1 (and for rays already on the surface)

---
 include/quadric.h |  3 ---
 src/quadric.cpp   | 25 ++++++++++---------------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/quadric.h b/include/quadric.h
index 0462677..05b85d3 100644
--- a/include/quadric.h
+++ b/include/quadric.h
@@ -37,9 +37,6 @@ namespace batoid {
         const double _Rsq;  // R*R
         const double _Rinvsq;  // 1/R/R
         const double _cp1; // 1 + conic
-        const double _cp1inv; // 1/(1 + conic)
-        const double _Rcp1; // R/(1+conic)
-        const double _RRcp1cp1; // R*R/(1+conic)/(1+conic)
         const double _cp1RR; // (1+conic)/R/R
     };
 
diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..14576fa 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -9,8 +9,7 @@ namespace batoid {
     Quadric::Quadric(double R, double conic) :
         _R(R), _conic(conic),
         _Rsq(R*R), _Rinvsq(1./R/R),
-        _cp1(conic+1), _cp1inv(1./_cp1),
-        _Rcp1(R/_cp1), _RRcp1cp1(R*R/_cp1/_cp1),
+        _cp1(conic+1),
         _cp1RR(_cp1/R/R) {}
 
     Quadric::~Quadric() {}
@@ -43,25 +42,21 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
-
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Solve x^2 + y^2 - 2 R z + (1+conic) z^2 = 0 for dt.  Note that no division by 1+conic is
+        // required, so this works for paraboloids (conic = -1) too.
+        double a = vx*vx + vy*vy + _cp1*vz*vz;
+        double b = 2*(x*vx + y*vy + vz*(_cp1*z - _R));
+        double c = x*x + y*y + z*(_cp1*z - 2*_R);
 
         double discriminant = b*b - 4*a*c;
 
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // When a == 0, dt1 is infinite and dt2 is the only solution.
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        double dt1 = q/a;
+        double dt2 = c/q;
 
         // New strategy, just always pick smaller abs(z).
         double z1 = z + vz*dt1;
-- 
2.43.0


From 068a4c105fafd6e79d87b91e7c08a1acbf4815df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:32 +0000
Subject: [PATCH 25/37] fix: inserting or removing a part failed when another
 part had the same short name

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index a2e4e6a..74dfcb6 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1716,7 +1716,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+            if self.name+'.'+it.name == before:
                 newItems.append(item)
             newItems.append(it)
         return self.__class__(
@@ -1745,7 +1745,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
+            if self.name+'.'+it.name != item:
                 newItems.append(it)
         return self.__class__(
             newItems,
-- 
2.43.0


From 541a19870f9167de9b7692a7eb3a97427df11c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 26/37] fix: pickling or copying an optic failed when another
 thread looked up its parts meanwhile

---
 batoid/optic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index 74dfcb6..7c49e75 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -45,6 +45,11 @@ class Optic:
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
+    def __getstate__(self):
+        # Copy, so another thread filling a cached property doesn't disturb
+        # pickling or copying this optic.
+        return self.__dict__.copy()
+
     def _repr_helper(self):
         out = ""
         if self.name is not None:
-- 
2.43.0


From e3e899601608166580091593915d0349d5fd3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 27/37] fix: RayVector.fromFieldAngles divided the caller's
 angles in place for the orthographic projection

---
 batoid/rayVector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 44a3391..85a9190 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1059,6 +1059,10 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
+        # Copy, since some projections return their inputs and vx, vy, vz are
+        # modified in place below.
+        theta_x = np.array(theta_x, dtype=float)
+        theta_y = np.array(theta_y, dtype=float)
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
         vx /= n
-- 
2.43.0


From 438950f1106f3b3fb560ac19b4f273bf698dfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 28/37] fix: RayVector.asSpokes and asGrid reinterpreted the
 bits of positions that are not doubles

---
 batoid/rayVector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 85a9190..c5e871b 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -429,8 +429,9 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        # Must be doubles to transform in place below
+        x = np.asarray(np.dot(lx, stack), dtype=float)
+        y = np.asarray(np.dot(ly, stack), dtype=float)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
@@ -794,6 +795,9 @@ class RayVector:
                 flux = w*area/(2*spokes)
             if isinstance(spokes, Integral):
                 spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+        # Must be doubles to transform in place below
+        rings = np.asarray(rings, dtype=float)
+        spokes = np.asarray(spokes, dtype=float)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From d025bc3ceb327c5d284389b9e70873fc5bab7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 29/37] fix: CoordSys computed in single precision or failed
 for origins and rotations that are not doubles

---
 batoid/coordSys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/coordSys.py b/batoid/coordSys.py
index d8229f4..f15d30b 100644
--- a/batoid/coordSys.py
+++ b/batoid/coordSys.py
@@ -37,8 +37,8 @@ class CoordSys:
             origin = np.zeros(3, dtype=float)
         if rot is None:
             rot = np.eye(3, dtype=float)
-        self.origin = np.array(origin)
-        self.rot = np.array(rot)
+        self.origin = np.array(origin, dtype=float)
+        self.rot = np.array(rot, dtype=float)
 
     @property
     def xhat(self):
-- 
2.43.0


From 894588fb5248d6817aafa3546723bfbd107a6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 30/37] fix: a Plane saved with pickle protocol 0 or 1 was
 restored without its surface

---
 batoid/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 442b159..17fd77d 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -177,7 +177,8 @@ class Plane(Surface):
         self.__init__()
 
     def __getstate__(self):
-        return ()
+        # Pickle protocols 0 and 1 don't restore an object with a false state.
+        return (None,)
 
     def __eq__(self, rhs):
         return isinstance(rhs, Plane)
-- 
2.43.0


From 70c49f7d2343e281f5511e1742e64c16e671997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 31/37] fix: a restored CoordSys could share the byte store's
 buffers

---
 batoid/coordSys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/coordSys.py b/batoid/coordSys.py
index f15d30b..dac504f 100644
--- a/batoid/coordSys.py
+++ b/batoid/coordSys.py
@@ -181,7 +181,8 @@ class CoordSys:
         return self.origin, self.rot
 
     def __setstate__(self, d):
-        self.origin, self.rot = d
+        # Own the arrays; unpickled ones may be shared or read-only.
+        self.origin, self.rot = (np.array(a) for a in d)
 
     def __eq__(self, rhs):
         if not isinstance(rhs, CoordSys): return False
-- 
2.43.0


From 78b651d4b6e2b4f3fc3d8a6888d63ab4b9ae2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 32/37] fix: TableMedium.fromTxt loaded the packaged table when
 the named file could not be reached

---
 batoid/medium.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/batoid/medium.py b/batoid/medium.py
index f95bd93..0deb7f8 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -89,6 +89,13 @@ class TableMedium(Medium):
         try:
             wavelength, n = np.loadtxt(filename, unpack=True, **kwargs)
         except FileNotFoundError:
+            # np.loadtxt also reports a file it cannot reach as missing.
+            try:
+                os.stat(filename)
+            except FileNotFoundError:
+                pass
+            else:
+                raise
             import glob
             from . import datadir
             filenames = glob.glob(os.path.join(datadir, "**", "*.txt"))
-- 
2.43.0


From 539d5ce1897f071c5698d46b33d55e29de6fd627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 33/37] fix: Lattice.__hash__ raised TypeError for masked
 arrays, such as wavefronts

---
 batoid/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/lattice.py b/batoid/lattice.py
index aa1abab..6db412c 100644
--- a/batoid/lattice.py
+++ b/batoid/lattice.py
@@ -72,7 +72,7 @@ class Lattice:
     def __hash__(self):
         return hash((
             "Lattice",
-            tuple(self.array.ravel()),
+            tuple(np.asarray(self.array).ravel()),
             tuple(self.primitiveVectors.ravel())
         ))
 
-- 
2.43.0


From 9df638516b14358f576d99d34a8e3362bb6e7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 34/37] fix: traceSplit raised TypeError when a part is skipped

---
 batoid/optic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 7c49e75..98ea2b6 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -508,10 +508,12 @@ class Interface(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1237,10 +1239,12 @@ class CompoundOptic(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
-- 
2.43.0


From baace16ca4518be446aca2341431c93d2e4896ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 35/37] fix: huygensPSF was NaN everywhere when its first ray
 missed a screen

---
 batoid/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..ab030bf 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -296,7 +296,8 @@ def huygensPSF(
     zs = np.zeros_like(xs)
 
     points = np.concatenate([aux[..., None] for aux in (xs, ys, zs)], axis=-1)
-    time = rays.t[0]
+    # Any single time will do, but rays that miss a screen have none.
+    time = rays.t[np.argmax(np.isfinite(rays.t))]
     for idx in np.ndindex(amplitudes.shape):
         amplitudes[idx] = rays.sumAmplitude(points[idx], time)
     out.array = np.abs(amplitudes)**2
-- 
2.43.0


From b1bd13f076df8f720281bab93be118b8c9d8cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 36/37] fix: Zernike.Z showed the caller's coefficient array

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 17fd77d..8499a6a 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -466,7 +466,7 @@ class Zernike(Surface):
         self.R_inner = float(R_inner)
         self.x_origin = float(x_origin)
         self.y_origin = float(y_origin)
-        self.Z = galsim.zernike.Zernike(coef, R_outer, R_inner)
+        self.Z = galsim.zernike.Zernike(self.coef, R_outer, R_inner)
         self._xycoef = self.Z._coef_array_xy
         self._xycoef_gradx = self.Z.gradX._coef_array_xy
         self._xycoef_grady = self.Z.gradY._coef_array_xy
-- 
2.43.0


From c6186e18e8c2bd3525bb206fcf94fa251c676448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 37/37] fix: pointer arrays of Sum, ObscUnion and
 ObscIntersection were never released

---
 include/obscuration.h |  6 ++++++
 include/sum.h         |  3 +++
 pysrc/obscuration.cpp | 12 ++++++++++--
 pysrc/sum.cpp         |  7 ++++++-
 src/obscuration.cpp   |  8 ++++++--
 src/sum.cpp           |  4 +++-
 6 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/obscuration.h b/include/obscuration.h
index ff182c8..6509af2 100644
--- a/include/obscuration.h
+++ b/include/obscuration.h
@@ -132,6 +132,9 @@ namespace batoid {
     private:
         const Obscuration** _obscs;
         size_t _nobsc;
+        #if defined(BATOID_GPU)
+        mutable const Obscuration** _devObscs = nullptr;  // mapped to device
+        #endif
     };
 
 
@@ -147,6 +150,9 @@ namespace batoid {
     private:
         const Obscuration** _obscs;
         size_t _nobsc;
+        #if defined(BATOID_GPU)
+        mutable const Obscuration** _devObscs = nullptr;  // mapped to device
+        #endif
     };
 
     #if defined(BATOID_GPU)
diff --git a/include/sum.h b/include/sum.h
index c3debe5..3dd4164 100644
--- a/include/sum.h
+++ b/include/sum.h
@@ -30,6 +30,9 @@ namespace batoid {
     private:
         const Surface** _surfaces;
         size_t _nsurf;
+        #if defined(BATOID_GPU)
+        mutable const Surface** _devSurfaces = nullptr;  // mapped to device
+        #endif
     };
 
     #if defined(BATOID_GPU)
diff --git a/pysrc/obscuration.cpp b/pysrc/obscuration.cpp
index 7259089..d05ff4f 100644
--- a/pysrc/obscuration.cpp
+++ b/pysrc/obscuration.cpp
@@ -75,7 +75,11 @@ namespace batoid {
                     for (int i=0; i<obscs.size(); i++) {
                         _obscs[i] = obscs[i].get();
                     }
-                    return new ObscUnion(_obscs, obscs.size());
+                    // The array goes with the object.
+                    return std::shared_ptr<ObscUnion>(
+                        new ObscUnion(_obscs, obscs.size()),
+                        [_obscs](ObscUnion* p) { delete p; delete[] _obscs; }
+                    );
                 }
             ));
 
@@ -86,7 +90,11 @@ namespace batoid {
                     for (int i=0; i<obscs.size(); i++) {
                         _obscs[i] = obscs[i].get();
                     }
-                    return new ObscIntersection(_obscs, obscs.size());
+                    // The array goes with the object.
+                    return std::shared_ptr<ObscIntersection>(
+                        new ObscIntersection(_obscs, obscs.size()),
+                        [_obscs](ObscIntersection* p) { delete p; delete[] _obscs; }
+                    );
                 }
             ));
     }
diff --git a/pysrc/sum.cpp b/pysrc/sum.cpp
index 39fd279..674948b 100644
--- a/pysrc/sum.cpp
+++ b/pysrc/sum.cpp
@@ -1,4 +1,5 @@
 #include "sum.h"
+#include <memory>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
@@ -14,7 +15,11 @@ namespace batoid {
                     for (int i=0; i<surfaces.size(); i++) {
                         _surfaces[i] = surfaces[i].get();
                     }
-                    return new Sum(_surfaces, surfaces.size());
+                    // The array goes with the object.
+                    return std::shared_ptr<Sum>(
+                        new Sum(_surfaces, surfaces.size()),
+                        [_surfaces](Sum* p) { delete p; delete[] _surfaces; }
+                    );
                 }
             ));
     }
diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index eb8a010..f8d261d 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -353,8 +353,9 @@ namespace batoid {
         ObscUnion::~ObscUnion() {
             #if defined(BATOID_GPU)
                 if (_devPtr) {
-                    const Obscuration** obscs = _obscs;
+                    const Obscuration** obscs = _devObscs;
                     #pragma omp target exit data map(release:obscs[:_nobsc])
+                    delete[] obscs;
                 }
             #endif
         }
@@ -386,6 +387,7 @@ namespace batoid {
                 ptr = new ObscUnion(obscs, _nobsc);
             }
             _devPtr = ptr;
+            _devObscs = obscs;
             return ptr;
         #else
             return this;
@@ -404,8 +406,9 @@ namespace batoid {
         ObscIntersection::~ObscIntersection() {
             #if defined(BATOID_GPU)
                 if (_devPtr) {
-                    const Obscuration** obscs = _obscs;
+                    const Obscuration** obscs = _devObscs;
                     #pragma omp target exit data map(release:obscs[:_nobsc])
+                    delete[] obscs;
                 }
             #endif
         }
@@ -437,6 +440,7 @@ namespace batoid {
                 ptr = new ObscIntersection(obscs, _nobsc);
             }
             _devPtr = ptr;
+            _devObscs = obscs;
             return ptr;
         #else
             return this;
diff --git a/src/sum.cpp b/src/sum.cpp
index a68b100..d11c47c 100644
--- a/src/sum.cpp
+++ b/src/sum.cpp
@@ -14,8 +14,9 @@ namespace batoid {
     Sum::~Sum() {
         #if defined(BATOID_GPU)
             if (_devPtr) {
-                const Surface** surfaces = _surfaces;
+                const Surface** surfaces = _devSurfaces;
                 #pragma omp target exit data map(release:surfaces[:_nsurf])
+                delete[] surfaces;
             }
         #endif
     }
@@ -75,6 +76,7 @@ namespace batoid {
                 ptr = new Sum(surfaces, _nsurf);
             }
             _devPtr = ptr;
+            _devSurfaces = surfaces;
             return ptr;
         #else
             return this;
-- 
2.43.0

