From e6b7287a1e5a8ff60ce926a210bd4054c037ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 01/77] fix: MatrixGroup.trace returned a stale ray trace after
 the group or the ray changed

---
 raytracing/matrixgroup.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..dbf1437 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,7 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # We keep the last ray and the last ray trace
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -429,17 +427,16 @@ class MatrixGroup(Matrix):
         """
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
+        # The elements (or the state of the ray) may have changed since the last
+        # call: always trace again. The last trace is only kept for reference.
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From ef88c837d0ee6c2921deda71f97fcc174eb72a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 02/77] fix: Matrix.trace marked the caller's input ray as
 blocked

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..8999203 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,6 +658,7 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
+                ray = copy.copy(ray)  # The input ray belongs to the caller
                 if abs(ray.y) > self.apertureDiameter/2:
                     ray.isBlocked = True
                 rayTrace.append(ray)
-- 
2.43.0


From 4447eb6f0f7e9d76b1baf201e9afb7911a9974de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 03/77] fix: Axicon.mul_ray deviated (in place) rays that were
 already blocked

---
 raytracing/axicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..69d850b 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -98,6 +98,8 @@ class Axicon(Matrix):
         """
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
+        if rightSideRay.isBlocked:
+            return outputRay  # Rays already blocked do not propagate
 
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
-- 
2.43.0


From 5a20d78626c2438710828c1278512c476a8b5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 04/77] fix: Matrix.mul_ray lost the wavelength of the ray

---
 raytracing/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 8999203..05315b5 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -407,6 +407,7 @@ class Matrix(object):
             outputRay.theta = self.C * rightSideRay.y + self.D * rightSideRay.theta
             outputRay.z = self.L + rightSideRay.z
             outputRay.apertureDiameter = self.apertureDiameter
+            outputRay.wavelength = rightSideRay.wavelength
 
             if abs(rightSideRay.y) > self.apertureDiameter/2 or abs(rightSideRay.theta) > self.apertureNA:
                 outputRay.isBlocked = True
-- 
2.43.0


From 43668cb8d593b0a311cf9a080af1de0094bf7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 05/77] fix: Ray.at lost the wavelength of the ray

---
 raytracing/ray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/ray.py b/raytracing/ray.py
index 34de077..4523c3d 100644
--- a/raytracing/ray.py
+++ b/raytracing/ray.py
@@ -200,7 +200,8 @@ class Ray:
         raytracing.Ray.along()
 
         """
-        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z)
+        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z,
+                        wavelength=self.wavelength)
         if self.isBlocked:
             outputRay.isBlocked = True
         return outputRay
-- 
2.43.0


From 56746135c980f334ce89da53c646496e4c357ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 06/77] fix: editing a MatrixGroup lost elements when refused,
 and left stale properties when emptied

---
 raytracing/matrixgroup.py | 46 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index dbf1437..430db92 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -77,6 +77,11 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self._updateTransferMatrix()
+
+    def _updateTransferMatrix(self):
+        """ The properties of the group (ABCD, length, vertices, indices) are
+        always those of its elements."""
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -88,6 +93,22 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    def _replaceElements(self, elements):
+        """ Replace all elements (checking indices, computing ABCD, etc). If they
+        cannot follow each other, then the group is left untouched."""
+        state = self.__dict__.copy()
+        spaces = [(e, e.frontIndex, e.backIndex) for e in elements if isinstance(e, Space)]
+        self.elements = []
+        try:
+            for element in elements:
+                self.append(element)
+            self._updateTransferMatrix()
+        except Exception:
+            self.__dict__.update(state)
+            for space, frontIndex, backIndex in spaces:
+                space.frontIndex = frontIndex
+                space.backIndex = backIndex
+            raise
 
     def __len__(self):
         """
@@ -167,11 +188,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        remainingElements = self.elements[:]  # We "copy" the list
+        poppedElement = remainingElements.pop(index)  # We pop the matrix in the list
+        self._replaceElements(remainingElements)  # We rebuild (check indices, compute ABCD, etc)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -212,14 +231,8 @@ class MatrixGroup(Matrix):
         raytracing.MatrixGroup.append
         """
         if not isinstance(element, collections.Iterable):
-            element = MatrixGroup([element])
-        else:
-            element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+            element = [element]
+        self._replaceElements(self.elements[:index] + list(element) + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -546,9 +559,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(list(loadedMatrices))
-- 
2.43.0


From c958e2c10b4ac902726ab667393d53d05695aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 07/77] fix: MatrixGroup.__setitem__ misplaced elements for
 negative indices and reversed slices

---
 raytracing/matrixgroup.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 430db92..f03098f 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -271,15 +271,15 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop, _ = slice(key.start, key.stop).indices(len(self))
+            stop = max(start, stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            start = range(len(self))[key]  # Negative indices are allowed, IndexError if out of range
+            stop = start + 1
+
+        if not isinstance(element, collections.Iterable):
+            element = [element]
+        self._replaceElements(self.elements[:start] + list(element) + self.elements[stop:])
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
-- 
2.43.0


From 1c4c642eb9fbebdf986a8934acdaed3fffbbde61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 08/77] fix: nested iterations over the same MatrixGroup
 interfered with each other

---
 raytracing/matrixgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index f03098f..e4c1b6d 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -494,7 +494,7 @@ class MatrixGroup(Matrix):
 
     def __iter__(self):
         self.iteration = 0
-        return self
+        return iter(self.elements if self.elements is not None else [])
 
     def __next__(self):
         if self.elements is None:
-- 
2.43.0


From 087306acead0eab8a326d8ac3bcebf63042d783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 09/77] fix: nested iterations over the same Rays interfered
 with each other

---
 raytracing/rays.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..f1274a7 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -359,7 +359,19 @@ class Rays:
     def __iter__(self):
         self.iteration = 0
         self.progressLog = 10000
-        return self
+        return self._iterate()
+
+    def _iterate(self):
+        # Each iterator has its own position: iterations can be nested
+        index = 0
+        while True:
+            self.iteration = index
+            try:
+                ray = next(self)
+            except StopIteration:
+                return
+            index += 1
+            yield ray
 
     def __next__(self) -> Ray:
         if self._rays is None:
-- 
2.43.0


From f6d9c274fbf80137ae8708dee1900867a95a1f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 10/77] fix: Rays.load kept the histograms and values of the
 previous rays

---
 raytracing/rays.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index f1274a7..ae2db29 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -401,7 +401,9 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
+        self._invalidateCachedValues()
+
+    def _invalidateCachedValues(self):
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -436,7 +438,9 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+
+        self._invalidateCachedValues()
 
     def save(self, filePath):
 
-- 
2.43.0


From e048163e39fa45305da2d21a4682caf9553b49a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 11/77] fix: Rays created from a generator was empty

---
 raytracing/rays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index ae2db29..2530a3c 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From 9a92cf466c5dbc9076ebc73b0be3c06fe9a99b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 12/77] fix: UniformRays with M=1 produced a ray outside of
 [yMin, yMax]

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 2530a3c..bf47a86 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -543,7 +543,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From c1f5acc0e57b9611fabd913e7a0206643bab5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 13/77] fix: Matrix.backwardConjugate always assumed an object
 space of index 1

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 05315b5..174789f 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1307,7 +1307,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From 3fcbb024d593b80b632c7c477e3b4fd41a8c6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 14/77] fix: fromFocusToFocus, ToConjugate and ToFocus ignored
 the indices of refraction of the element

---
 raytracing/matrix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 174789f..1c642c8 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,7 +212,8 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength()), self, Space(self.backFocalLength())])
+        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
+                            Space(self.backFocalLength(), n=self.backIndex)])
 
 
 
@@ -1696,7 +1697,7 @@ class ToConjugate(Space):
     def __init__(self, element):
         d = element.forwardConjugate().d
         if isfinite(d):
-            super(ToConjugate, self).__init__(d=element.forwardConjugate().d)
+            super(ToConjugate, self).__init__(d=d, n=element.backIndex)
         else:
             raise ValueError("The conjugate plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
@@ -1708,7 +1709,7 @@ class ToFocus(Space):
     def __init__(self, element):
         bfl = element.backFocalLength()
         if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl)
+            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From 2aab839a6fff23e5b0928ca733c59c7189971146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 15/77] fix: the vertices of a flipped ThickLens were
 exchanged: wrong focal distances

---
 raytracing/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 1c642c8..ffcb247 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1891,6 +1891,9 @@ class ThickLens(Matrix):
         super implementation because other things must be flipped (vertices for instance)
         """
         super(ThickLens, self).flipOrientation()
+        # Both vertices are at the edges, positions are from the front edge
+        self.frontVertex = 0
+        self.backVertex = self.L
 
         temp = self.R1
         self.R1 = -self.R2
-- 
2.43.0


From 1c628177f1048f44da81dadeaca0652b264ade5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 16/77] fix: Lens.largestDiameter returned a half height
 instead of a diameter

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index ffcb247..1d941c8 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1540,7 +1540,7 @@ class Lens(Matrix):
             Largest diameter of the element or group of elements. For a `Matrix`
             this will simply be the aperture diameter of this element.
         """
-        return self._physicalHalfHeight
+        return self.displayHalfHeight() * 2
 
 
 class CurvedMirror(Matrix):
-- 
2.43.0


From b527347e792dce135b290e4522ad5257bc151d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 17/77] fix: the surfaces of flipped elements that already
 changed their radii were flipped twice

---
 raytracing/matrix.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 1d941c8..5f49381 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1588,6 +1588,11 @@ class CurvedMirror(Matrix):
         """
         return [SphericalInterface(R=2/self.C)]
 
+    @property
+    def surfaces(self):
+        # Flipping this element already changed its radii (and indices)
+        return self.forwardSurfaces
+
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
 
@@ -1756,6 +1761,11 @@ class DielectricInterface(Matrix):
         """
         return [SphericalInterface(R=self.R, n=self.n2)]
 
+    @property
+    def surfaces(self):
+        # Flipping this element already changed its radii (and indices)
+        return self.forwardSurfaces
+
     def flipOrientation(self):
         """ We flip the element around (as in, we turn a lens around front-back).
 
@@ -1838,6 +1848,11 @@ class ThickLens(Matrix):
         return [SphericalInterface(R=self.R1, n=self.n, L=self.L),
                 SphericalInterface(R=self.R2)]
 
+    @property
+    def surfaces(self):
+        # Flipping this element already changed its radii (and indices)
+        return self.forwardSurfaces
+
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
 
-- 
2.43.0


From 5efa68336885b6f53bc48fb299631f1957209a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 18/77] fix: the surfaces of a flipped CompoundLens were
 flipped twice

---
 raytracing/specialtylenses.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..383a6ce 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -42,6 +42,11 @@ class CompoundLens(MatrixGroup):
         (f1, f2) = self.focusPositions(z)
         return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
 
+    @property
+    def surfaces(self) -> List[Interface]:
+        # Flipping the group already flipped all its elements
+        return CompoundLens.forwardSurfaces.fget(self)
+
     @property
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
@@ -51,6 +56,7 @@ class CompoundLens(MatrixGroup):
                 spaceLength = element.L
             elif isinstance(element, DielectricInterface):
                 surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                spaceLength = 0
         surfaces.reverse()
         return surfaces
 
-- 
2.43.0


From 88759dcf7889f63fd8fe2f083b7a6ccbd09bae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 19/77] fix: LaserCavity.appendElementsInReverse left the ABCD
 matrix of the cavity unchanged

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..70a40b9 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -55,7 +55,7 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
+            self.append(element)
 
 
     def eigenModes(self):
-- 
2.43.0


From 6c9ee5644ba2a2d77dc86d64873987739df4ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 20/77] fix: LaserCavity modes ignored the index of refraction
 and could not be propagated

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 70a40b9..80def18 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -82,7 +82,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 82d13be4f08995151467c922707cc0ab4d1633e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 21/77] fix: GaussianBeam.wo ignored the index of refraction

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..579f4eb 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / self.n / math.pi)
         else:
             return None
 
-- 
2.43.0


From 8f8fcc141c4d3899d3cedbf0628a2c9df999ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 22/77] fix: a GaussianBeam larger than the entrance aperture
 of an element was not flagged as clipped

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5f49381..b1e0280 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -462,7 +462,7 @@ class Matrix(object):
         outputBeam.z = self.L + rightSideBeam.z
         outputBeam.n = self.backIndex
 
-        if abs(outputBeam.w) > self.apertureDiameter/2:
+        if max(abs(rightSideBeam.w), abs(outputBeam.w)) > self.apertureDiameter/2:
             outputBeam.isClipped = True
         else:
             outputBeam.isClipped = rightSideBeam.isClipped
-- 
2.43.0


From b9b3f253330927cb4cc8205fd8a1677237983808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 23/77] fix: CompoundLens.focalShifts repeated a list of
 wavelengths instead of converting it

---
 raytracing/specialtylenses.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 383a6ce..77b8084 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -2,7 +2,7 @@ from .matrixgroup import *
 from .materials import *
 from math import *
 import matplotlib.transforms as transforms
-from numpy import linspace
+from numpy import linspace, array
 import matplotlib.pyplot as plt
 
 """ 
@@ -71,7 +71,7 @@ class CompoundLens(MatrixGroup):
         """
 
         if self.designFocalLength is None:
-            raise("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
+            raise ValueError("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
 
         if wavelengths is None:
             wavelengths = linspace(0.4, 0.8, 100)
@@ -82,7 +82,7 @@ class CompoundLens(MatrixGroup):
             f,f = lens.effectiveFocalLengths()
             focalShifts.append(f-self.designFocalLength)
         
-        return wavelengths*1000, focalShifts
+        return array(wavelengths)*1000, focalShifts
 
     def showChromaticAberrations(self, wavelengths=None):
         """ Show the chromatic aberrations focal shifts for this lens
-- 
2.43.0


From d60cd408ccace843306a380bdec2f02a66b8d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 24/77] fix: ZMXReader failed when all design wavelengths are
 0.55

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..45252d8 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -57,7 +57,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 72baa10547a20afc8eec8db3da81e0c28ecefb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 25/77] fix: Edmund Optics lenses with known materials could
 not be used at another wavelength (nor focalShifts)

---
 raytracing/eo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/eo.py b/raytracing/eo.py
index d73c401..56c5108 100644
--- a/raytracing/eo.py
+++ b/raytracing/eo.py
@@ -45,13 +45,13 @@ class PN_33_922(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_922,self).__init__(fa=150.00,fb=126.46, R1=92.05,R2=-72.85, R3=-305.87, 
                                     tc1=23.2, tc2=23.1, te=36.01, n1=None, mat1=N_BAK1, n2=None, mat2=N_SF8, diameter=75,
                                     label="EO #33-922",
                                     url="https://www.edmundoptics.com/p/75mm-dia-x-150mm-fl-vis-0-coated-achromatic-lens/3376/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
 
 class PN_88_593(AchromatDoubletLens):
     """PN_88_593
@@ -97,9 +97,9 @@ class PN_85_877(AchromatDoubletLens):
         "diameter", "6.25"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_85_877,self).__init__(fa=-10.0,fb=-11.92, R1=-6.55, R2=5.10, R3=89.10, 
                                     tc1=1.0, tc2=2.5, te=4.2, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF10, diameter=6.25,
                                     label="EO #85-877",
                                     url="https://www.edmundoptics.com/p/625mm-dia-x10mm-fl-vis-nir-coated-negative-achromatic-lens/28478/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
-- 
2.43.0


From b29e8ba625ea741a9d51fbaa37a8b1e6ceb0a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 26/77] fix: ZMXReader failed on files that do not specify
 units

---
 raytracing/zemax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 45252d8..6494544 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -249,6 +249,8 @@ class ZMXReader:
         for line in self.lines:
             if areTheSame(line["NAME"],key):
                 values.append(line["PARAM"][index])
+        if len(values) == 0:
+            return None
         if len(values) == 1:
             return values[0]
 
-- 
2.43.0


From 48a8fc24871aab25d65eb022fb8b0c913544bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 27/77] fix: ImagingPath.display lost the design of the figure
 and made design() not callable

---
 raytracing/imagingpath.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..0dd18d4 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -966,6 +966,7 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        savedDesignParams = self.figure.designParams.copy()
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1003,9 +1004,9 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams = savedDesignParams
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From 17bb10fe264be5515c10596a895a94e1af12d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 28/77] fix: ImagingPath.display modified the list of rays of
 the caller

---
 raytracing/imagingpath.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 0dd18d4..1a7c79d 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -973,8 +973,7 @@ class ImagingPath(MatrixGroup):
             self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
         self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
 
-        if raysList is None:
-            raysList = []
+        raysList = list(raysList) if raysList is not None else []
         if rays is not None:
             raysList.append(rays)
 
-- 
2.43.0


From dd81c7895702a45c0533f31dfa65ff949556756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 29/77] fix: ImagingPath.apertureStop ignored the apertures
 that follow the first one blocking a ray at 0.1 rad

---
 raytracing/imagingpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 1a7c79d..b4bb998 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -465,7 +465,9 @@ class ImagingPath(MatrixGroup):
         if not self.hasFiniteApertureDiameter():
             return Stop(z=None, diameter=float('+Inf'))
         else:
-            ray = Ray(y=0, theta=0.1)  # Any ray angle will do
+            # Any ray angle will do, as long as the ray is not blocked: blocked rays
+            # stop and would never reach the following apertures
+            ray = Ray(y=0, theta=0.1 / 2**20)
             rayTrace = self.trace(ray)
 
             maxRatio = 0.0
-- 
2.43.0


From c26433c621440dcae0c8515a567d77a3e61a871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 30/77] fix: ImagingPath.subPath ignored the index and diameter
 of the space, and the orientation of the elements

---
 raytracing/imagingpath.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index b4bb998..79afb94 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1,4 +1,5 @@
 from typing import Any, Union, List
+import copy
 from .figure import Figure
 from .matrixgroup import *
 from .ray import *
@@ -938,12 +939,16 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
-                    if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                    newElements = [Space(zStart - z, n=element.frontIndex, diameter=element.apertureDiameter)]
+                    for previous in reversed(self.elements[:i]):
+                        previous = copy.deepcopy(previous)
+                        if not isinstance(previous, CurvedMirror):  # Same mirror, when going backwards
+                            previous.flipOrientation()
+                        newElements.append(previous)
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex,
+                                         diameter=element.apertureDiameter)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From 3cee90a63dbac042c5fa439d6f4616dd34aaee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 31/77] fix: Preferences could not be created with initial
 values

---
 raytracing/preferences.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..ec6934b 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -4,8 +4,6 @@ import platform
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,6 +24,7 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
-- 
2.43.0


From f9087ff3d806fbc2fe6500a2bc403164deab6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 32/77] fix: Preferences overwrote or resurrected values
 changed by another instance, and wrote the file when reading

---
 raytracing/preferences.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ec6934b..c861454 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -35,6 +35,7 @@ class Preferences(dict):
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        self.readFromDisk()
         super().__setitem__(key, value)
         self.writeToDisk()
 
@@ -52,8 +53,10 @@ class Preferences(dict):
                 try:
                     data = json.load(prefFile)
                 except Exception as err:
-                    data = dict()
-            self.update(data)
+                    data = None
+            if isinstance(data, dict):
+                super().clear()
+                super().update(data)
         else:
             self.clear()
             self.writeToDisk()
-- 
2.43.0


From 09c04de2b54b11a4198eaa46959f93207e270e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 33/77] fix: deleting an item from Preferences was not saved

---
 raytracing/preferences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index c861454..719ea36 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -39,6 +39,11 @@ class Preferences(dict):
         super().__setitem__(key, value)
         self.writeToDisk()
 
+    def __delitem__(self, key):
+        self.readFromDisk()
+        super().__delitem__(key)
+        self.writeToDisk()
+
     def resetPreferences(self):
         try:
             os.remove(self.path)
-- 
2.43.0


From 24dee19fd51cb1bf7c7ffbdb4951be32d21c6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 34/77] fix: a value that cannot be saved corrupted the
 Preferences file

---
 raytracing/preferences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 719ea36..ab754aa 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -36,6 +36,7 @@ class Preferences(dict):
 
     def __setitem__(self, key, value):
         self.readFromDisk()
+        json.dumps({key: value})  # Values that cannot be saved are refused
         super().__setitem__(key, value)
         self.writeToDisk()
 
-- 
2.43.0


From 80612b7e00e60e011ecdb8f772299afa74a8316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 35/77] fix: a group starting with an element without effect in
 a medium lost its index of refraction (transferMatrix and opticalInvariant at
 z=0)

---
 raytracing/matrixgroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index e4c1b6d..1bb7653 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -322,7 +322,8 @@ class MatrixGroup(Matrix):
         ray formalism.  To find out if a ray has been blocked, you must
         use trace().
         """
-        transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        frontIndex = self.elements[0].frontIndex if len(self.elements) != 0 else 1.0
+        transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=frontIndex, backIndex=frontIndex)
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From a430b2dd3d4cf7e97f7eeaeef20af979eaee9b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 36/77] fix: fromFocusToFocus and ToFocus were wrong when the
 vertices are not at the edges of the element

---
 raytracing/matrix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index b1e0280..bc437e1 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,8 +212,10 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
-                            Space(self.backFocalLength(), n=self.backIndex)])
+        toBackFocus = ToFocus(self)
+        # The vertices are not always at the edges: distance from focus to front edge
+        z1, _ = self.focusPositions(z=0)
+        return MatrixGroup([Space(-z1, n=self.frontIndex), self, toBackFocus])
 
 
 
@@ -1712,9 +1714,10 @@ class ToFocus(Space):
     of the `element`.
     """
     def __init__(self, element):
-        bfl = element.backFocalLength()
-        if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
+        # The vertices are not always at the edges: distance from back edge to focus
+        _, z2 = element.focusPositions(z=0)
+        if z2 is not None:
+            super(ToFocus, self).__init__(d=z2 - element.L, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From 1db7eba715999d924977d9f587bd5c8c41fea668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 37/77] fix: opticalInvariant of an element with length was
 wrong for rays outside of its aperture

---
 raytracing/matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index bc437e1..898dd00 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -602,8 +602,9 @@ class Matrix(object):
 
         matrix = self.transferMatrix(upTo=z)
 
-        outputRay1 = matrix.traceThrough(ray1)
-        outputRay2 = matrix.traceThrough(ray2)
+        # The invariant does not depend on apertures: a blocked ray would stop at the entrance
+        outputRay1 = matrix * ray1
+        outputRay2 = matrix * ray2
 
         return matrix.backIndex * (outputRay1.theta * outputRay2.y - outputRay1.y * outputRay2.theta)
 
-- 
2.43.0


From e88237916dec90b2b6ab69b778e8fd24c526dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 38/77] fix: LaserCavity.appendElementsInReverse did not
 reverse asymmetric elements

---
 raytracing/lasercavity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 80def18..9938363 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -1,6 +1,7 @@
 from .matrixgroup import *
 from .imagingpath import *
 from .laserpath import *
+import copy
 import warnings
 
 class LaserCavity(LaserPath):
@@ -55,6 +56,9 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
+            if not isinstance(element, CurvedMirror):  # Same mirror, when going backwards
+                element = copy.deepcopy(element)
+                element.flipOrientation()
             self.append(element)
 
 
-- 
2.43.0


From f063df24662e2ff79ddd8c6921976367fbe938cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 39/77] fix: fieldStop and halfFieldOfView never ended for a
 field of view smaller than the search step

---
 raytracing/imagingpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 79afb94..d4fddda 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -625,7 +625,7 @@ class ImagingPath(MatrixGroup):
                 else:
                     dy = dy * 1.5  # Keep going, go faster (different factor)
 
-                y += dy
+                y = max(y + dy, 0.0)  # Stepping over 0 could miss the whole field of view
                 wasBlocked = outputChiefRay.isBlocked
                 if abs(y) > self.maxHeight and not wasBlocked:
                     return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
@@ -743,7 +743,7 @@ class ImagingPath(MatrixGroup):
             else:
                 dy = dy * 1.5  # Don't use 2.0: could bounce forever
 
-            y += dy
+            y = max(y + dy, 0.0)  # Stepping over 0 could miss the whole field of view
             wasBlocked = outputChiefRay.isBlocked
             if abs(y) > self.maxHeight and not wasBlocked:
                 return float("+Inf")
-- 
2.43.0


From 8c082301c6bd95666d8f2adf1da172d108d8d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 40/77] fix: transferMatrix(upTo) at the edges of a generic
 element with a length was refused (also apertureStop and pupils next to one)

---
 raytracing/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 898dd00..cbecdb3 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -534,8 +534,11 @@ class Matrix(object):
         distance = upTo
         if self.L == 0:
             return self
-        elif self.L <= distance:
-            return self
+        elif self.L - distance < 1e-10:
+            return self  # At the back edge (within rounding errors) or beyond
+        elif abs(distance) < 1e-10:
+            # At the front edge (within rounding errors): not yet in this element
+            return Matrix(A=1, B=0, C=0, D=1, frontIndex=self.frontIndex, backIndex=self.frontIndex)
         else:
             raise TypeError("Subclass of non-null physical length must override transferMatrix()")
 
-- 
2.43.0


From 54f02ae28571f0b6805515f6566418a1a7ff6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 41/77] fix: fieldStop failed when the only aperture is at an
 image of the object

---
 raytracing/imagingpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d4fddda..d06c569 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -610,7 +610,8 @@ class ImagingPath(MatrixGroup):
 
         fieldStopPosition = None
         fieldStopDiameter = float('+Inf')
-        if self.hasFiniteApertureDiameter() and apertureStopPosition != 0:
+        # There is no chief ray when the only apertures are at an image of the object
+        if self.hasFiniteApertureDiameter() and apertureStopPosition != 0 and self.chiefRay(y=0) is not None:
             dy = self.precision * 100
             y = 0.0
             wasBlocked = False
-- 
2.43.0


From 76a4d75e595fa6ad20438f50c69073112d942af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 42/77] fix: a refused histogram of Rays made the next request
 for it return another one

---
 raytracing/rays.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index bf47a86..0ae04be 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,8 +192,6 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
@@ -202,6 +200,7 @@ class Rays:
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesCountHistogram, self._yHistogram)
 
@@ -272,14 +271,13 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesAnglesHistogram, self._thetaHistogram)
 
-- 
2.43.0


From 61660f80ae1050df6c468cb3c45601346180b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 43/77] fix: N_SF6 had the dispersion data of another glass
 (SF1): 61 Thorlabs doublets had focal lengths wrong by 5 to 60%

---
 raytracing/materials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..4962091 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -223,18 +223,18 @@ class N_SF5(Material):
         return 32.25
 
 class N_SF6(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6HT.html """
+    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6.html """
     @classmethod
     def n(cls, wavelength):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From 5328d56bad9e9ccbe9d0bc7518a72cb4e8f4794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 44/77] fix: a doublet whose focal lengths are given as
 integers could not be built at a wavelength where they change by more than 1%

---
 raytracing/specialtylenses.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 77b8084..9f66295 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -206,13 +206,13 @@ class AchromatDoubletLens(CompoundLens):
         # focal length (fa) is actually within 1% of the calculated focal length
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
-            msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+            msg = "Doublet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Doublet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -317,13 +317,13 @@ class SingletLens(CompoundLens):
         # focal length (fa) is actually within 1% of the calculated focal length
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
-            msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+            msg = "Singlet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Singlet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From 9684b7c5f662277966a95c45847929dd70cbf626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 45/77] fix: Material.findByName refused the names listed by
 Material.all()

---
 raytracing/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 4962091..252ea97 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -100,7 +100,7 @@ class Material:
         if name is None:
             return Air()
 
-        simplifiedName = name.replace('-','')
+        simplifiedName = name.replace('-','').replace('_','')
         for className in Material.all():
             shortName = className.replace('_','')
             if areTheSame(simplifiedName, shortName):
-- 
2.43.0


From 79f812bb5b603af0b162ab4f47b84eb1ea57b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 46/77] fix: radii of AC127_050_AB_ML, AC127_075_AB_ML and
 AC080_010_C_ML were mistyped (wrong focal lengths)

---
 raytracing/thorlabs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index c787fad..5835066 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -2617,14 +2617,14 @@ class AC127_030_AB_ML(AchromatDoubletLens):
 
 class AC127_050_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=23.3, R2=-22.6, R3=-102.4,
+        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=26.3, R2=-22.6, R3=-102.4,
                                     tc1=4.0, tc2=2.0, te=5.0, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12807',
                                     label="AC127-050-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class AC127_075_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-1773,
+        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-177.3,
                                     tc1=2.5, tc2=1.5, te=3.3, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12808',
                                     label="AC127-075-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -3051,7 +3051,7 @@ class AC064_015_C_ML(AchromatDoubletLens):
 
 class AC080_010_C_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC080_010_C_ML,self).__init__(fa=10.0,fb=7.2, R1=7.1, R2=-4.9, R3=-20.0,
+        super(AC080_010_C_ML,self).__init__(fa=10.0,fb=7.2, R1=7.1, R2=-4.9, R3=-20.9,
                                     tc1=4.2, tc2=1.3, te=3.9, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF6HT, diameter=8.0,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=4072',
                                     label="AC080-010-C-ML", wavelength=wavelength, wavelengthRef=0.5876)
-- 
2.43.0


From ecf828147fd8dbb51ad60718c43b4292f775a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 47/77] fix: expertMode() still showed the hints for beginners
 and beginnerMode() showed them only once

BeginnerHint derives from UserWarning, and the filter set for UserWarning
after it had priority.
---
 raytracing/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..66c7c93 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,11 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
+    # The last filter has priority: UserWarning (the parent) must come first
+    warnings.filterwarnings("default", category=UserWarning)
     warnings.filterwarnings("always", category=BeginnerHint)
     warnings.filterwarnings("default", category=ExpertNote)
     warnings.filterwarnings("default", category=DeprecationWarning)
-    warnings.filterwarnings("default", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +56,11 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    # The last filter has priority: UserWarning (the parent) must come first
+    warnings.filterwarnings("once", category=UserWarning)
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("once", category=ExpertNote)
     warnings.filterwarnings("once", category=DeprecationWarning)
-    warnings.filterwarnings("once", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
-- 
2.43.0


From 82f48dfa31b51a6355e75c96cf9c770b671dd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 48/77] fix: reading Preferences with get(), 'in' or by
 iterating ignored changes by other instances, and pop(), setdefault() and
 clear() were not saved

---
 raytracing/preferences.py | 53 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ab754aa..fe56900 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -45,13 +45,61 @@ class Preferences(dict):
         super().__delitem__(key)
         self.writeToDisk()
 
+    def __contains__(self, key):
+        self.readFromDisk()
+        return super().__contains__(key)
+
+    def __iter__(self):
+        self.readFromDisk()
+        return iter(super().copy())  # Accessing items reads again from disk
+
+    def __len__(self):
+        self.readFromDisk()
+        return super().__len__()
+
+    def get(self, key, default=None):
+        self.readFromDisk()
+        return super().get(key, default)
+
+    def keys(self):
+        self.readFromDisk()
+        return super().keys()
+
+    def values(self):
+        self.readFromDisk()
+        return super().values()
+
+    def items(self):
+        self.readFromDisk()
+        return super().items()
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def pop(self, key, *default):
+        self.readFromDisk()
+        value = super().pop(key, *default)
+        self.writeToDisk()
+        return value
+
+    def popitem(self):
+        self.readFromDisk()
+        item = super().popitem()
+        self.writeToDisk()
+        return item
+
+    def clear(self):
+        super().clear()
+        self.writeToDisk()
+
     def resetPreferences(self):
         try:
             os.remove(self.path)
         except Exception as err:
             pass
         self.clear()
-        self.writeToDisk()
 
     def readFromDisk(self):
         if os.path.exists(self.path):
@@ -65,8 +113,7 @@ class Preferences(dict):
                 super().update(data)
         else:
             self.clear()
-            self.writeToDisk()
 
     def writeToDisk(self):
         with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+            json.dump(super().copy(), prefFile)
-- 
2.43.0


From e962e6e7b65ba536f6c98f96d495c72e63db1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 49/77] fix: raytracing could not be imported when the date of
 the last version check was saved without microseconds or unreadable

---
 raytracing/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..4ce2e8d 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -71,9 +71,11 @@ import tempfile
 
 def lastCheckMoreThanADay():
     if "lastVersionCheck" in prefs:
-        isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
-        difference = datetime.now() - then
+        try:
+            then = datetime.fromisoformat(prefs["lastVersionCheck"])
+            difference = datetime.now() - then
+        except (TypeError, ValueError):
+            return True
         if difference.days > 1:
             return True
         else:
-- 
2.43.0


From 298cf10fb780333640a465d568f28f28183b23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 50/77] fix: displaying several objects or lamps at the same
 position lost the rays of all but the last, and showObject=False failed for
 an object not at z=0

---
 raytracing/figure.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..9fb1bbe 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -206,17 +206,18 @@ class Figure:
             instance = type(rays).__name__
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
+                graphics = self.graphicGroups.setdefault(objectKey, [])
                 if self.path.showObject:
-                    self.graphicGroups[objectKey] = [ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['objectColor'],
-                                                                   fill=self.designParams['fillObject'], label=rays.label)]
+                    graphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z,
+                                                  color=self.designParams['objectColor'],
+                                                  fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
-                    self.graphicGroups[objectKey].extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
-                                                                                        color=self.designParams['imageColor'],
-                                                                                        fill=self.designParams['fillImage']))
+                    graphics.extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
+                                                                   color=self.designParams['imageColor'],
+                                                                   fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-                self.graphicGroups[lampKey] = [LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label)]
+                self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
 
     def setLinesFromRaysList(self):
         for rays in self.raysList:
@@ -227,13 +228,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From 8e3a1b80a4fd1c60d7a09c0fb0998a9cc920169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 51/77] fix: displaying an ImagingPath replaced its object
 height by the field of view, and a failed display left its options to the
 next one

---
 raytracing/imagingpath.py | 93 +++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d06c569..6214760 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -975,45 +975,48 @@ class ImagingPath(MatrixGroup):
         """
 
         savedDesignParams = self.figure.designParams.copy()
-        if limitObjectToFieldOfView is not None:
-            self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
-        if onlyPrincipalAndAxialRays is not None:
-            self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
-        self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
-
-        raysList = list(raysList) if raysList is not None else []
-        if rays is not None:
-            raysList.append(rays)
-
-        self.figure.applyDesign()
-
-        if len(raysList) == 0:
-            self.figure.designParams['showFOV'] = True
-            if not self.figure.designParams['onlyPrincipalAndAxialRays']:
-                self.figure.designParams['showFOV'] = False
+        savedObjectHeight = self._objectHeight
+        try:
+            if limitObjectToFieldOfView is not None:
+                self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
+            if onlyPrincipalAndAxialRays is not None:
+                self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
+            self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
+
+            raysList = list(raysList) if raysList is not None else []
+            if rays is not None:
+                raysList.append(rays)
+
+            self.figure.applyDesign()
+
+            if len(raysList) == 0:
+                self.figure.designParams['showFOV'] = True
+                if not self.figure.designParams['onlyPrincipalAndAxialRays']:
+                    self.figure.designParams['showFOV'] = False
+                else:
+                    warnings.warn('No rays were provided for the display. '
+                                  'Using principal and axial rays.', category=BeginnerHint)
+                    if self.principalRay() is None and self.axialRay() is None:
+                        warnings.warn('Principal and axial rays are not defined for this system. '
+                                      'Using default ObjectRays.', category=BeginnerHint)
+
+            if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
+                fanAngle = self.fanAngle
+                if fanAngle is None:
+                    fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+                defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
+                                           halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
+                raysList.append(defaultObject)
             else:
-                warnings.warn('No rays were provided for the display. '
-                              'Using principal and axial rays.', category=BeginnerHint)
-                if self.principalRay() is None and self.axialRay() is None:
-                    warnings.warn('Principal and axial rays are not defined for this system. '
-                                  'Using default ObjectRays.', category=BeginnerHint)
-
-        if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
-            fanAngle = self.fanAngle
-            if fanAngle is None:
-                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
-            defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
-                                       halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
-            raysList.append(defaultObject)
-        else:
-            self.figure.designParams['showObjectImage'] = True
+                self.figure.designParams['showObjectImage'] = True
 
-        self.figure.display(raysList=raysList, comments=comments, title=self.label,
-                            backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
-
-        self.figure = Figure(opticalPath=self)
-        self.figure.designParams = savedDesignParams
-        self.design = self.figure.design
+            self.figure.display(raysList=raysList, comments=comments, title=self.label,
+                                backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
+        finally:
+            self._objectHeight = savedObjectHeight
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = savedDesignParams
+            self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
@@ -1060,11 +1063,15 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        savedObjectHeight = self._objectHeight
         self._objectHeight = diameter
-        if fanAngle is None:
-            fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
-        rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
+        try:
+            if fanAngle is None:
+                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+            rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
 
-        self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
-                     onlyPrincipalAndAxialRays=False,
-                     limitObjectToFieldOfView=False)
+            self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
+                         onlyPrincipalAndAxialRays=False,
+                         limitObjectToFieldOfView=False)
+        finally:
+            self._objectHeight = savedObjectHeight
-- 
2.43.0


From 8d977bc2d7b92bfd7d733f0b3312e5a841bf9a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 52/77] fix: displaying a path changed the size of its lenses
 without diameter to the height of the rays

---
 raytracing/graphics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..d8f5039 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,15 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
+        self.lensHalfHeight = matrix.displayHalfHeight()
+        if matrix.apertureDiameter == float('+Inf') and minSize > self.lensHalfHeight:
+            self.lensHalfHeight = minSize
 
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        return [DoubleThinArrow(self.lensHalfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
-- 
2.43.0


From 9a52c7807c85da886ab313ce01434554813ee641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 53/77] fix: displaying a LaserPath again added the waists and
 labels of the previous displays

---
 raytracing/laserpath.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raytracing/laserpath.py b/raytracing/laserpath.py
index dfaaed5..ed4b4bb 100644
--- a/raytracing/laserpath.py
+++ b/raytracing/laserpath.py
@@ -73,5 +73,11 @@ class LaserPath(MatrixGroup):
         if beams is None:
             beams = [self.inputBeam]
 
-        self.figure.displayGaussianBeam(beams=beams,
-                                        comments=comments, title=self.label, backend='matplotlib', display3D=False)
+        designParams = self.figure.designParams
+        try:
+            self.figure.displayGaussianBeam(beams=beams,
+                                            comments=comments, title=self.label, backend='matplotlib', display3D=False)
+        finally:
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = designParams
+            self.design = self.figure.design
-- 
2.43.0


From dbbab3ff53293a77dec98bd0996f84de24c2ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 54/77] fix: LaserCavity.display() ignored the comments

---
 raytracing/lasercavity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 9938363..c29f5a4 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -127,6 +127,6 @@ class LaserCavity(LaserPath):
 
         if not self.isStable:
             warnings.warn("`LaserCavity.display()` called with an unstable cavity. No beam will be drawn.", BeginnerHint)
-            super(LaserCavity, self).display(beams=[])
+            super(LaserCavity, self).display(beams=[], comments=comments)
         else:
-            super(LaserCavity, self).display(beams=self.laserModes())
+            super(LaserCavity, self).display(beams=self.laserModes(), comments=comments)
-- 
2.43.0


From ab391c644352426888052ee59f1cc0c5d85d1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 55/77] fix: displaying only axial rays with a single color
 failed

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 9fb1bbe..971da03 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -420,7 +420,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = 1 % len(colors)
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From e709cabecc31aa4db25de1ff34a62f80789191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 56/77] fix: displaying a path with showEntrancePupil failed
 when the entrance pupil is at infinity

---
 raytracing/figure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 971da03..24611ca 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from .graphics import *
 from .ray import Ray
 import itertools
+import math
 from .utils import *
 import sys
 
@@ -172,7 +173,7 @@ class Figure:
 
         if self.path.showEntrancePupil:
             (pupilPosition, pupilDiameter) = self.path.entrancePupil()
-            if pupilPosition is not None:
+            if pupilPosition is not None and math.isfinite(pupilPosition) and math.isfinite(pupilDiameter):
                 self.graphicGroups[kElementsKey].append(self.graphicOfEntrancePupil)
 
         if self.path.showPointsOfInterest:
-- 
2.43.0


From a96665c13ef60416b7f2b251c49ec43434653fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 57/77] fix: a flipped element with a plane surface could not
 be drawn

---
 raytracing/graphicComponents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..e78e123 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if np.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if np.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
-- 
2.43.0


From 23f1c9d45a101455a9631d275afb35a88758d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 58/77] fix: displaying a path with nothing but its elements to
 show failed (all rays blocked, object hidden)

---
 raytracing/figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 24611ca..c34e59b 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -706,6 +706,8 @@ class MplFigure(Figure):
         visibility = self.visibility
         if kElementsKey in visibility.keys():
             visibility.pop(kElementsKey)
+        if not visibility:
+            return
 
         subAxes = plt.axes((0.81, 0.4, 0.1, 0.5), frameon=False, anchor='NW')
 
-- 
2.43.0


From fdba50dbed18e33943331d7cd22f46ad8baa1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 59/77] fix: a flipped plane interface could not be drawn

---
 raytracing/graphicComponents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index e78e123..99f85b7 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if np.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
-- 
2.43.0


From 51b0c79dcc8ac5161c86b515ded3bb685ec1a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 60/77] fix: surfaces of a CompoundLens ignored all but one of
 successive spaces

---
 raytracing/specialtylenses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 9f66295..592a0e7 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -53,7 +53,7 @@ class CompoundLens(MatrixGroup):
         spaceLength = 0
         for element in reversed(self.elements):
             if isinstance(element, Space):
-                spaceLength = element.L
+                spaceLength += element.L
             elif isinstance(element, DielectricInterface):
                 surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
                 spaceLength = 0
-- 
2.43.0


From 01f88ade3f86a69bc8e8cd738a51f81bdd7c1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 61/77] fix: flipping a group with the same element several
 times flipped it several times

---
 raytracing/matrixgroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 1bb7653..4fcd39b 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -487,8 +487,11 @@ class MatrixGroup(Matrix):
         allElements.reverse()
         self.elements = []
 
+        flipped = []
         for element in allElements:
-            element.flipOrientation()
+            if not any(element is other for other in flipped):  # It may appear more than once
+                element.flipOrientation()
+                flipped.append(element)
             self.append(element)
 
         return self
-- 
2.43.0


From 931b44a1ed9c14106b58e22ddfe35d34a7d7fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 62/77] fix: the efficiency report failed without rays in the
 field of view and ignored single lost rays

---
 raytracing/imagingpath.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 6214760..63713ef 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -899,8 +899,11 @@ class ImagingPath(MatrixGroup):
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked) + len(notBlocked) == 0:
+            print("  No rays emitted within the field of view and the acceptance angle")
+        else:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -912,12 +915,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From e2b73966cc0a78926762379bf14babee35e7eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 63/77] fix: the latest release was the last one listed,
 whatever its number

---
 raytracing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 66c7c93..8f86739 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -248,7 +248,7 @@ def checkLatestVersion(currentVersion):
         with urllib.request.urlopen(req, timeout=1) as response:
             data = json.load(response)
             versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            latestVersion = max(versions)  # The order of the releases is not that of the versions
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From e4b98df21d00de56e3b4f6cdc6909bfb7da55324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 64/77] fix: an element drawn as a box was drawn twice as far
 as it is

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index d8f5039..41a87a9 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 3a381d5148bbb3ffe5c1aa202ba37737439468d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 65/77] fix: displaying an element without vertices failed

---
 raytracing/graphics.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 41a87a9..d0d8b2f 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -174,8 +174,11 @@ class MatrixGraphic(Graphic):
 
     @property
     def verticesPoints(self) -> List[Point]:
-        return [Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'),
-                Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5')]
+        points = []
+        for vertex, label in ((self.matrix.frontVertex, '$V_f$'), (self.matrix.backVertex, '$V_b$')):
+            if vertex is not None:
+                points.append(Point(self.x + vertex, y=self.halfHeight * 0.1, text=label, color='0.5'))
+        return points
 
     @property
     def pointsOfInterest(self):
@@ -223,14 +226,16 @@ class MatrixGraphic(Graphic):
 
         # Front vertex to front focal spot (front focal length or FFL)
         h = halfHeight * 0.7
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
-        self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
-                                 hasMarker=False))
+        if self.matrix.frontVertex is not None:
+            V1 = self.x + self.matrix.frontVertex
+            self.annotations.append(ArrowAnnotation(A=(V1, h), B=(F1, h)))
+            self.points.append(Point((V1 + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL), hasMarker=False))
 
         # Back vertex to back focal spot (back focal length or BFL)
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
-        self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
-                                 hasMarker=False))
+        if self.matrix.backVertex is not None:
+            V2 = self.x + self.matrix.backVertex
+            self.annotations.append(ArrowAnnotation(A=(V2, -h), B=(F2, -h)))
+            self.points.append(Point((V2 + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL), hasMarker=False))
 
     def display(self):
         """ Display this component, without any ray tracing but with
-- 
2.43.0


From 7e615b1ae0f7a622dc0a1cd9166b2a45d46cb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 66/77] fix: the color of ObjectRays was ignored when drawing
 the object and its images

---
 raytracing/figure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index c34e59b..dd91af2 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -208,13 +208,15 @@ class Figure:
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
                 graphics = self.graphicGroups.setdefault(objectKey, [])
+                objectColor = rays.color if rays.color is not None else self.designParams['objectColor']
+                imageColor = rays.color if rays.color is not None else self.designParams['imageColor']
                 if self.path.showObject:
                     graphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                  color=self.designParams['objectColor'],
+                                                  color=objectColor,
                                                   fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
                     graphics.extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['imageColor'],
+                                                                   color=imageColor,
                                                                    fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-- 
2.43.0


From 9604f189de6175d8a1105ec3174a12b6e3f1bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 67/77] fix: a plane CurvedMirror could not be drawn

---
 raytracing/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index cbecdb3..6cd739f 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1592,7 +1592,8 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
-        return [SphericalInterface(R=2/self.C)]
+        R = 2/self.C if self.C != 0 else float('+Inf')
+        return [SphericalInterface(R=R)]
 
     @property
     def surfaces(self):
-- 
2.43.0


From 8b4f856dc1c9d15e06766a10294388489f8478fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 68/77] fix: an afocal CompoundLens could not be drawn

---
 raytracing/specialtylenses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 592a0e7..6da4293 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -40,6 +40,8 @@ class CompoundLens(MatrixGroup):
             The position
         """
         (f1, f2) = self.focusPositions(z)
+        if f1 is None or f2 is None:
+            return []
         return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
 
     @property
-- 
2.43.0


From f3641f7a44b621c62e319479f6fbbe398cc87b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 69/77] fix: Ray.along did not interpolate the height inside an
 element

---
 raytracing/ray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/ray.py b/raytracing/ray.py
index 4523c3d..feb1578 100644
--- a/raytracing/ray.py
+++ b/raytracing/ray.py
@@ -238,7 +238,11 @@ class Ray:
                 return ray
 
             if ray.z > z:
-                return closestRay.at(z=z)
+                outputRay = closestRay.at(z=z)
+                if ray.z > closestRay.z:  # Inside an element, theta is not the slope
+                    fraction = (z - closestRay.z) / (ray.z - closestRay.z)
+                    outputRay.y = closestRay.y + fraction * (ray.y - closestRay.y)
+                return outputRay
 
             closestRay = ray
 
-- 
2.43.0


From 4d2f0fda237997261ebd19c6a0515781dc666a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 70/77] fix: Zemax files in centimeters or meters were read as
 millimeters

---
 raytracing/zemax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 6494544..bb8cc28 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -46,6 +46,10 @@ class ZMXReader:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From 2463ed6a7b22d5f9097dd1436202681bf69af9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 71/77] fix: the edge thickness of a lens with a flat surface
 was never confirmed

---
 raytracing/specialtylenses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 6da4293..1f71d41 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -219,10 +219,10 @@ class AchromatDoubletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + math.copysign(h * math.tan(phi1 / 2), self.R1)
 
         phi3 = math.asin(h / abs(self.R3))
-        corner3 = self.backVertex + self.R3 * (1.0 - math.cos(phi3))
+        corner3 = self.backVertex + math.copysign(h * math.tan(phi3 / 2), self.R3)
         if abs(((corner3 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Doublet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
@@ -330,10 +330,10 @@ class SingletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + math.copysign(h * math.tan(phi1 / 2), self.R1)
 
         phi2 = math.asin(h / abs(self.R2))
-        corner2 = self.backVertex + self.R2 * (1.0 - math.cos(phi2))
+        corner2 = self.backVertex + math.copysign(h * math.tan(phi2 / 2), self.R2)
         if abs(((corner2 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Singlet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
-- 
2.43.0


From 1e202b0fc062d0e0f064b621464c2b54fb3ac35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 72/77] fix: materials defined by the user were listed but
 could not be found

---
 raytracing/materials.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 252ea97..e63edf5 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -101,11 +101,10 @@ class Material:
             return Air()
 
         simplifiedName = name.replace('-','').replace('_','')
-        for className in Material.all():
-            shortName = className.replace('_','')
+        for materialClass in Material.__subclasses__():
+            shortName = materialClass.__name__.replace('_','')
             if areTheSame(simplifiedName, shortName):
-                cls = globals()[className]
-                return cls()
+                return materialClass()
 
         raise ValueError("The requested material '{0}' is not recognized \
 in the list of materials of raytracing: {1}.  You need to implement it as a \
@@ -115,11 +114,11 @@ subclass of Material, see materials.py for examples.".format(name, Material.all(
     def findByIndex(cls, n, wavelength, tolerance=0.05):
         """ Identify the material based on a index value and a tolerance."""
         match = []
-        for materialName in cls.all():
-            mat = globals()[materialName]()
+        for materialClass in cls.__subclasses__():
+            mat = materialClass()
             nmat = mat.n(wavelength)
             if abs(n-nmat) < tolerance:
-                match.append((materialName, nmat, mat.abbeNumber()))
+                match.append((materialClass.__name__, nmat, mat.abbeNumber()))
         return match
 
 class Air(Material):
-- 
2.43.0


From 9dcc9436e9b29eeef2ce0e96d904ca1130361bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 73/77] fix: the command line ran the last example when asked
 for number 0 and failed halfway with an unknown number

---
 raytracing/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytracing/__main__.py b/raytracing/__main__.py
index 85d1e00..ea2cfbd 100644
--- a/raytracing/__main__.py
+++ b/raytracing/__main__.py
@@ -42,7 +42,13 @@ if runExamples == 'all':
 elif runExamples == '':
     runExamples = []
 else:
-    runExamples = [int(y) for y in runExamples.split(',')]
+    try:
+        runExamples = [int(y) for y in runExamples.split(',')]
+    except ValueError:
+        ap.error("examples must be numbers separated by a comma: '{0}'".format(runExamples))
+    for i in runExamples:
+        if i < 1 or i > len(examples.short):
+            ap.error("there is no example {0}, they go from 1 to {1}".format(i, len(examples.short)))
 
 if printClasses:
     printClassHierarchy(Rays)
-- 
2.43.0


From ec7828698dea9d19f12601ff32848dba4b69a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 74/77] fix: tracing a group, or reading the size of a lens,
 made it different from an identical one

---
 raytracing/matrix.py      | 2 +-
 raytracing/matrixgroup.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 6cd739f..edb1c3a 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1533,7 +1533,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
     @property
diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 4fcd39b..6f64d27 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -454,6 +454,14 @@ class MatrixGroup(Matrix):
 
         return rayTrace
 
+    def __eq__(self, other):
+        """ The rays traced last do not count: tracing a group does not make it different """
+        if isinstance(other, MatrixGroup):
+            lastTrace = ('_lastRayToBeTraced', '_lastRayTrace')
+            return {k: v for k, v in self.__dict__.items() if k not in lastTrace} \
+                == {k: v for k, v in other.__dict__.items() if k not in lastTrace}
+        return False
+
     def hasFiniteApertureDiameter(self):
         """ True if ImagingPath has at least one element of finite diameter """
         for element in self.elements:
-- 
2.43.0


From 94647bfd8fe2cb9b59a3d08f8d3eecdd01735061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 75/77] fix: a printed beam stated a wavelength a thousand
 times too large (lengths are in millimeters)

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index 579f4eb..99e3ef9 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -145,7 +145,7 @@ class GaussianBeam(object):
             description += "w(z): {0:.3f}, ".format(self.w)
             description += "R(z): {0:.3f}, ".format(self.R)
             description += "z: {0:.3f}, ".format(self.z)
-            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e9)
+            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e6)
             description += "zo: {0:.3f}, ".format(self.zo)
             description += "wo: {0:.3f}, ".format(self.wo)
             description += "wo position: {0:.3f}".format(self.waistPosition)
-- 
2.43.0


From 3edbd2f2ec35935d9c9315c7b4d1a0607b75c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 76/77] fix: the largest diameter of a group counted the size
 at which elements without diameter are drawn

---
 raytracing/matrixgroup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 6f64d27..697ad91 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -476,6 +476,8 @@ class MatrixGroup(Matrix):
         maxDiameter = 0
         if self.hasFiniteApertureDiameter():
             for element in self.elements:
+                if not element.hasFiniteApertureDiameter():
+                    continue  # its largestDiameter is only for display
                 diameter = element.largestDiameter
                 if diameter != float('+Inf') and diameter > maxDiameter:
                     maxDiameter = diameter
-- 
2.43.0


From d6159ccc9cca9dc15d8752f644fdfeff90d0b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:16 +0000
Subject: [PATCH 77/77] fix: a group refused at its creation left the spaces it
 was given with another index

---
 raytracing/matrixgroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 697ad91..4024a94 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -26,8 +26,7 @@ class MatrixGroup(Matrix):
             if not isinstance(elements, collections.Iterable):
                 raise TypeError("'elements' must be iterable (i.e. a list or a tuple of Matrix objects).")
 
-            for element in elements:
-                self.append(element)
+            self._replaceElements(list(elements))  # If refused, the spaces given are left as they were
 
         # We keep the last ray and the last ray trace
         self._lastRayToBeTraced = None
-- 
2.43.0

