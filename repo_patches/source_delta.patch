From 81ea7020afe4e3da9b3cf61a5d8d0f064df9cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 01/54] fix: keep the matrix of a group current after any edit,
 and refuse an edit without changing it

pop() of the last element and load() of an empty file left the previous matrix,
a refused pop/insert/assignment left the group truncated, and assignment at a
negative position put the element at the wrong place.
---
 raytracing/matrixgroup.py | 61 ++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..7381b2f 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -79,6 +79,10 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self._updateTransferMatrix()
+
+    def _updateTransferMatrix(self):
+        """ Recompute the properties of the group from its current elements. """
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -91,6 +95,23 @@ class MatrixGroup(Matrix):
         self.backIndex = transferMatrix.backIndex
 
 
+    def _replaceElements(self, elements):
+        """ Replace all the elements of the group and rebuild its attributes (check indices, compute ABCD, etc).
+        If the elements cannot follow one another, the group is left unchanged. """
+        backIndex = None
+        for element in elements:
+            if not isinstance(element, Matrix):
+                raise TypeError("'matrix' must be a Matrix instance.")
+            if backIndex is None or element.frontIndex == backIndex:
+                backIndex = element.backIndex
+            elif not isinstance(element, Space):
+                raise ValueError("Mismatch of indices between last element and appended element")
+
+        self.elements = []
+        self._updateTransferMatrix()
+        for element in elements:
+            self.append(element)
+
     def __len__(self):
         """
         Returns the number of matrices in the group. Allows the use of len(MatrixGroup).
@@ -169,11 +190,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        remainingElements = self.elements[:]  # We "copy" the list
+        poppedElement = remainingElements.pop(index)  # We pop the matrix in the copy
+        self._replaceElements(remainingElements)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -217,11 +236,7 @@ class MatrixGroup(Matrix):
             element = MatrixGroup([element])
         else:
             element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+        self._replaceElements(self.elements[:index] + element.elements + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -260,15 +275,18 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop, _ = slice(key.start, key.stop).indices(len(self.elements))
+        else:
+            start = key + len(self.elements) if key < 0 else key
+            if not 0 <= start < len(self.elements):
+                raise IndexError("assignment index out of range")
+            stop = start + 1
+
+        if isinstance(element, collections.Iterable):
+            newElements = list(element)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            newElements = [element]
+        self._replaceElements(self.elements[:start] + newElements + self.elements[max(start, stop):])
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -549,9 +567,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(list(loadedMatrices))
-- 
2.43.0


From 8da6402213556a59686fd24fd6a91803a0df871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 02/54] fix: the transfer matrix of a group starts in the
 medium in front of its first element

A path starting with a space of index n reported front index 1 for a distance of zero
(or a space of zero length), so that the optical invariant at z=0 was wrong.
---
 raytracing/matrixgroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 7381b2f..311a863 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -329,7 +329,9 @@ class MatrixGroup(Matrix):
         ray formalism.  To find out if a ray has been blocked, you must
         use trace().
         """
-        transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        # We start in the medium in front of the first element
+        frontIndex = self.elements[0].frontIndex if len(self.elements) != 0 else 1.0
+        transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=frontIndex, backIndex=frontIndex)
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From 8a713a2f0c24ce8bc34529bf6bf36a3f9dd32660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 03/54] fix: trace a ray through the path as it is now, not as
 it was when an equal ray was last traced

The cached trace was returned after the path or its elements were modified, and to
rays at another position, blocked or not, of another wavelength.
---
 raytracing/matrixgroup.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 311a863..2ccc0d6 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -450,16 +450,13 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From 7e4cfc72137ffeb7b019ec8b72cf1f854b552568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 04/54] fix: tracing through an element of finite length no
 longer modifies the input ray

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..2df66a7 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,6 +658,7 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
+                ray = copy.copy(ray)  # Never modify the input ray
                 if abs(ray.y) > self.apertureDiameter/2:
                     ray.isBlocked = True
                 rayTrace.append(ray)
-- 
2.43.0


From 4c81a28dc2f086a49c754cbe684d5e9097c166d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 05/54] fix: a ray keeps its wavelength when it is traced or
 propagated

---
 raytracing/matrix.py | 1 +
 raytracing/ray.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 2df66a7..5aeb4aa 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -407,6 +407,7 @@ class Matrix(object):
             outputRay.theta = self.C * rightSideRay.y + self.D * rightSideRay.theta
             outputRay.z = self.L + rightSideRay.z
             outputRay.apertureDiameter = self.apertureDiameter
+            outputRay.wavelength = rightSideRay.wavelength
 
             if abs(rightSideRay.y) > self.apertureDiameter/2 or abs(rightSideRay.theta) > self.apertureNA:
                 outputRay.isBlocked = True
diff --git a/raytracing/ray.py b/raytracing/ray.py
index 34de077..05c4c1d 100644
--- a/raytracing/ray.py
+++ b/raytracing/ray.py
@@ -200,7 +200,7 @@ class Ray:
         raytracing.Ray.along()
 
         """
-        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z)
+        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z, wavelength=self.wavelength)
         if self.isBlocked:
             outputRay.isBlocked = True
         return outputRay
-- 
2.43.0


From 13948ddb1af29cfb61e1ceb3d53fb0cce48ace52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 06/54] fix: iterating or tracing a group does not change what
 it is equal to, and iterations are independent

---
 raytracing/matrixgroup.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 2ccc0d6..46dccfe 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -499,9 +499,17 @@ class MatrixGroup(Matrix):
 
         return self
 
+    def __eq__(self, other):
+        """ Groups are equal when their content is: iterating or tracing makes no difference """
+        if isinstance(other, MatrixGroup):
+            transient = ('iteration', '_lastRayToBeTraced', '_lastRayTrace')
+            return {k: v for k, v in self.__dict__.items() if k not in transient} == \
+                   {k: v for k, v in other.__dict__.items() if k not in transient}
+        return super(MatrixGroup, self).__eq__(other)
+
     def __iter__(self):
         self.iteration = 0
-        return self
+        return iter(self.elements)
 
     def __next__(self):
         if self.elements is None:
-- 
2.43.0


From 3036fc55250999f66e901635e9c41d7dbdbe605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 07/54] fix: a bundle of rays can be built from a generator,
 and falling back from parallel tracing loses no ray

---
 raytracing/matrix.py | 4 ++--
 raytracing/rays.py   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5aeb4aa..cc5039d 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -875,8 +875,8 @@ class Matrix(object):
             if processes is None:
                 processes = multiprocessing.cpu_count()
 
-            theExplicitList = list(inputRays)
-            manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
+            inputRays = list(inputRays)
+            manyInputRays = [(inputRays[i::processes], progress) for i in range(processes)]
 
             with multiprocessing.Pool(processes=processes) as pool:
                 outputRays = pool.starmap(self.traceManyThrough, manyInputRays)
diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..2f53b8d 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # only once: it may be a generator
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From f02ce47c6bd9731748d594abd6552095a216cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 08/54] fix: the way to a focus or conjugate plane is measured
 from the edge of the element, in the medium next to it

---
 raytracing/matrix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index cc5039d..a2a8f02 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,7 +212,10 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength()), self, Space(self.backFocalLength())])
+        (frontFocus, backFocus) = self.focusPositions(z=0)
+        if frontFocus is None or backFocus is None:
+            raise ValueError("The focal planes are at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
+        return MatrixGroup([Space(-frontFocus, n=self.frontIndex), self, Space(backFocus - self.L, n=self.backIndex)])
 
 
 
@@ -1696,7 +1699,7 @@ class ToConjugate(Space):
     def __init__(self, element):
         d = element.forwardConjugate().d
         if isfinite(d):
-            super(ToConjugate, self).__init__(d=element.forwardConjugate().d)
+            super(ToConjugate, self).__init__(d=d, n=element.backIndex)
         else:
             raise ValueError("The conjugate plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
@@ -1706,9 +1709,9 @@ class ToFocus(Space):
     of the `element`.
     """
     def __init__(self, element):
-        bfl = element.backFocalLength()
-        if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl)
+        backFocus = element.focusPositions(z=0).z2
+        if backFocus is not None:
+            super(ToFocus, self).__init__(d=backFocus - element.L, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From 4ddaf2483d8bc1ddc15950a8351a6203bb55453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 09/54] fix: the object plane of a backward conjugate is in the
 medium in front of the element

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index a2a8f02..a585a16 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1310,7 +1310,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From 8dcc26193ceb9680319840eea08bb38090e69572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 10/54] fix: flipping an element reverses its matrix and a
 thick lens keeps its vertices at its ends

---
 raytracing/matrix.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index a585a16..5aba480 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1390,6 +1390,12 @@ class Matrix(object):
         However, subclasses can override this function and act accordingly.
         """
         self.isFlipped = not self.isFlipped
+        # The matrix met by light from the other side: the inverse, with angles of opposite sign
+        determinant = self.determinant
+        (self.A, self.D) = (self.D/determinant, self.A/determinant)
+        self.B = self.B/determinant
+        self.C = self.C/determinant
+
         # First and last interfaces. Used for BFL and FFL
         tempVertex = self.backVertex
         self.backVertex = self.frontVertex
@@ -1894,6 +1900,9 @@ class ThickLens(Matrix):
         """
         super(ThickLens, self).flipOrientation()
 
+        self.frontVertex = 0
+        self.backVertex = self.L
+
         temp = self.R1
         self.R1 = -self.R2
         self.R2 = -temp
-- 
2.43.0


From c938b320a1c7ef3a9fd42424947a7e24308f40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 11/54] fix: the aperture stop is found even if the ray used to
 find it would be blocked

---
 raytracing/imagingpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..4fd8917 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -465,7 +465,8 @@ class ImagingPath(MatrixGroup):
         if not self.hasFiniteApertureDiameter():
             return Stop(z=None, diameter=float('+Inf'))
         else:
-            ray = Ray(y=0, theta=0.1)  # Any ray angle will do
+            # Any ray angle will do, if it is small enough for the ray never to be blocked before the stop.
+            ray = Ray(y=0, theta=0.1 * 2**-64)
             rayTrace = self.trace(ray)
 
             maxRatio = 0.0
-- 
2.43.0


From 04a6eb19a5425b5991fd28022812e69fdd0c3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 12/54] fix: the NA of a path without an aperture stop is None,
 as its f-number is

---
 raytracing/imagingpath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 4fd8917..d1b303e 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -404,6 +404,9 @@ class ImagingPath(MatrixGroup):
         raytracing.ImagingPath.fNumber
         """
         axialRay = self.axialRay()
+        if axialRay is None:
+            return None  # No aperture stop -> no axial ray
+
         return self.frontIndex * np.sin(axialRay.theta)
 
     def apertureStop(self):
-- 
2.43.0


From dd6649f21855a75b7fd7a6c5bedaea6ed3faa9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 13/54] fix: the search for the field stop never goes past the
 axis, where it ran away to infinity

---
 raytracing/imagingpath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d1b303e..8a935ec 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -625,6 +625,8 @@ class ImagingPath(MatrixGroup):
                     dy = -dy / 2.0  # Go back, reduce increment
                 else:
                     dy = dy * 1.5  # Keep going, go faster (different factor)
+                if y + dy < 0:
+                    dy = -y / 2.0  # Never go past the axis
 
                 y += dy
                 wasBlocked = outputChiefRay.isBlocked
@@ -743,6 +745,8 @@ class ImagingPath(MatrixGroup):
                 dy = -dy / 2.0
             else:
                 dy = dy * 1.5  # Don't use 2.0: could bounce forever
+            if y + dy < 0:
+                dy = -y / 2.0  # Never go past the axis
 
             y += dy
             wasBlocked = outputChiefRay.isBlocked
-- 
2.43.0


From 905c2c5163d309795c17abf0f5ab84c97b6f7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 14/54] fix: the field stop has the diameter of the element
 that blocks, when it blocks at its entrance

---
 raytracing/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5aba480..853b34e 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -665,6 +665,7 @@ class Matrix(object):
                 ray = copy.copy(ray)  # Never modify the input ray
                 if abs(ray.y) > self.apertureDiameter/2:
                     ray.isBlocked = True
+                    ray.apertureDiameter = self.apertureDiameter  # The aperture that blocks it
                 rayTrace.append(ray)
 
         rayTrace.append(self * ray)
-- 
2.43.0


From 9885b0a99f46df8639f7165d29a60ab4b8898099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 15/54] fix: the waist of a beam in a medium is that of its
 index

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..579f4eb 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / self.n / math.pi)
         else:
             return None
 
-- 
2.43.0


From 469ef4090ffefc628a768b10ecac9989b74882cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 16/54] fix: the modes of a cavity are in its medium

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..8311cdd 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -82,7 +82,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 3a664ebac02ce3a8d2afe657c99fa1a40c17a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 17/54] fix: completing a cavity in reverse updates its matrix
 and reverses each element

---
 raytracing/lasercavity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 8311cdd..9e91cfa 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -1,6 +1,7 @@
 from .matrixgroup import *
 from .imagingpath import *
 from .laserpath import *
+import copy
 import warnings
 
 class LaserCavity(LaserPath):
@@ -55,7 +56,11 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
+            # On the way back, light meets the other side of the elements, but the same side of the mirrors
+            backwardElement = copy.deepcopy(element)
+            if not isinstance(backwardElement, CurvedMirror):
+                backwardElement.flipOrientation()
+            self.append(backwardElement)
 
 
     def eigenModes(self):
-- 
2.43.0


From a0ecb25f3f21dc620c76b6800ee3ac8b05a82e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 18/54] fix: an achromat or singlet without power is reported
 by a warning

---
 raytracing/specialtylenses.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..e846afd 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -204,6 +204,8 @@ class AchromatDoubletLens(CompoundLens):
                   "expected {1:.4}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
+        if BFL is None: # no power, no focal point
+            BFL = float("+inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
                   "expected {1:.4}".format(BFL, fb, self.label)
@@ -315,6 +317,8 @@ class SingletLens(CompoundLens):
                   "expected {1:.4}".format(f_f, fb, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
+        if BFL is None: # no power, no focal point
+            BFL = float("+inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
                   "expected {1:.4}".format(BFL, fb, self.label)
-- 
2.43.0


From d48fbd00114d8dc38124931e676c44706f12727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 19/54] fix: focal lengths given as integers can be reported by
 a warning

---
 raytracing/specialtylenses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index e846afd..6a278f1 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -201,14 +201,14 @@ class AchromatDoubletLens(CompoundLens):
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
             msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+                  "expected {1:.4}".format(float(f), float(fa), self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if BFL is None: # no power, no focal point
             BFL = float("+inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4}".format(float(BFL), float(fb), self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -314,14 +314,14 @@ class SingletLens(CompoundLens):
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
             msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+                  "expected {1:.4}".format(float(f_f), float(f), self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if BFL is None: # no power, no focal point
             BFL = float("+inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4}".format(float(BFL), float(fb), self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From a3c8e42771914ac22a54830969747932c9ad6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 20/54] fix: focal shifts at a list of wavelengths

---
 raytracing/specialtylenses.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 6a278f1..22217d8 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -2,7 +2,7 @@ from .matrixgroup import *
 from .materials import *
 from math import *
 import matplotlib.transforms as transforms
-from numpy import linspace
+from numpy import array, linspace
 import matplotlib.pyplot as plt
 
 """ 
@@ -65,7 +65,7 @@ class CompoundLens(MatrixGroup):
         """
 
         if self.designFocalLength is None:
-            raise("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
+            raise ValueError("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
 
         if wavelengths is None:
             wavelengths = linspace(0.4, 0.8, 100)
@@ -76,7 +76,7 @@ class CompoundLens(MatrixGroup):
             f,f = lens.effectiveFocalLengths()
             focalShifts.append(f-self.designFocalLength)
         
-        return wavelengths*1000, focalShifts
+        return array(wavelengths)*1000, focalShifts
 
     def showChromaticAberrations(self, wavelengths=None):
         """ Show the chromatic aberrations focal shifts for this lens
-- 
2.43.0


From baa66d7f53fbb960a2ae9896ed25fc3c47973aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 21/54] fix: Edmund Optics lenses made of catalogued glasses at
 any wavelength

---
 raytracing/eo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/eo.py b/raytracing/eo.py
index d73c401..9a6cb55 100644
--- a/raytracing/eo.py
+++ b/raytracing/eo.py
@@ -45,13 +45,13 @@ class PN_33_922(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_922,self).__init__(fa=150.00,fb=126.46, R1=92.05,R2=-72.85, R3=-305.87, 
                                     tc1=23.2, tc2=23.1, te=36.01, n1=None, mat1=N_BAK1, n2=None, mat2=N_SF8, diameter=75,
                                     label="EO #33-922",
                                     url="https://www.edmundoptics.com/p/75mm-dia-x-150mm-fl-vis-0-coated-achromatic-lens/3376/",
-                                    wavelengthRef=0.5876)
+                                    wavelength=wavelength, wavelengthRef=0.5876)
 
 class PN_88_593(AchromatDoubletLens):
     """PN_88_593
@@ -97,9 +97,9 @@ class PN_85_877(AchromatDoubletLens):
         "diameter", "6.25"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_85_877,self).__init__(fa=-10.0,fb=-11.92, R1=-6.55, R2=5.10, R3=89.10, 
                                     tc1=1.0, tc2=2.5, te=4.2, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF10, diameter=6.25,
                                     label="EO #85-877",
                                     url="https://www.edmundoptics.com/p/625mm-dia-x10mm-fl-vis-nir-coated-negative-achromatic-lens/28478/",
-                                    wavelengthRef=0.5876)
+                                    wavelength=wavelength, wavelengthRef=0.5876)
-- 
2.43.0


From 5e2c3e33bd1b54607cb2201023ef6ac26232a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 22/54] fix: N-SF6 has the dispersion of N-SF6, not that of SF1

---
 raytracing/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..89c8caa 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -229,12 +229,12 @@ class N_SF6(Material):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From 5bf5142c1e2151384c72cd44c811f04bdccefa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 23/54] fix: materials are found by the name of their class

---
 raytracing/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 89c8caa..f3a988b 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -100,7 +100,7 @@ class Material:
         if name is None:
             return Air()
 
-        simplifiedName = name.replace('-','')
+        simplifiedName = name.replace('-','').replace('_','')
         for className in Material.all():
             shortName = className.replace('_','')
             if areTheSame(simplifiedName, shortName):
-- 
2.43.0


From 733f433a46656de74ab43c57ef716f223561cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 24/54] fix: a uniform source of one height is within its
 heights

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 2f53b8d..2cb3d9f 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -527,7 +527,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From 699790a693e4dd904c38e2ae5aab1d69297888f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 25/54] fix: reading the heights or angles of rays does not
 restart an iteration over them

---
 raytracing/rays.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 2cb3d9f..e023e0a 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -115,7 +115,7 @@ class Rays:
         Returns the heights of rays in the list.
         """
         if self._yValues is None:
-            self._yValues = list(map(lambda x: x.y, self))
+            self._yValues = [self[i].y for i in range(len(self))]
 
         return self._yValues
 
@@ -125,7 +125,7 @@ class Rays:
         Returns the angles of rays in the list.
         """
         if self._thetaValues is None:
-            self._thetaValues = list(map(lambda x: x.theta, self))
+            self._thetaValues = [self[i].theta for i in range(len(self))]
 
         return self._thetaValues
 
-- 
2.43.0


From d1f4f60907a6788543eb798752df3d1234cd5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 26/54] fix: a histogram that could not be made is not
 remembered

---
 raytracing/rays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index e023e0a..2010a52 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,8 +192,7 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
+            self._countHistogramParameters = None
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
@@ -202,6 +201,7 @@ class Rays:
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesCountHistogram, self._yHistogram)
 
@@ -272,14 +272,14 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
+            self._anglesHistogramParameters = None
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesAnglesHistogram, self._thetaHistogram)
 
-- 
2.43.0


From 4480bb4f5eb4d1bb4250960f24f871b63f2a7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 27/54] fix: heights, angles and histograms are those of the
 rays loaded

---
 raytracing/rays.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 2010a52..948ceeb 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -390,7 +390,9 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
+        self._clearCachedValues()
+
+    def _clearCachedValues(self):
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -425,7 +427,8 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+            self._clearCachedValues()
 
     def save(self, filePath):
 
-- 
2.43.0


From 601ba1aa90ac709c3144672f6fd432f40270d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 28/54] fix: random rays count the rays appended or loaded

---
 raytracing/rays.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 948ceeb..fcf6e5c 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -655,6 +655,17 @@ class RandomRays(Rays):
 
         return self._rays[item]
 
+    def append(self, ray):
+        super(RandomRays, self).append(ray)
+        self.maxCount = max(self.maxCount, len(self._rays))
+
+    def load(self, filePath, append=False):
+        super(RandomRays, self).load(filePath, append=append)
+        if append:
+            self.maxCount = max(self.maxCount, len(self._rays))
+        else:
+            self.maxCount = len(self._rays)
+
     def __next__(self) -> Ray:
         if self.iteration >= self.maxCount:
             raise StopIteration
-- 
2.43.0


From dd5298c0dcbe9b8834576b58266c2356ea2fb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 29/54] fix: a Zemax file without units is in millimetres

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..854aa3f 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -42,7 +42,7 @@ class ZMXReader:
 
         units = self.value("UNIT")
         self.factor = 1
-        if units is None:
+        if len(units) == 0:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
-- 
2.43.0


From 8227e980c4f198bfa742d109e39571de01ead395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 30/54] fix: Zemax files in centimetres or metres

---
 raytracing/zemax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 854aa3f..01a40bf 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -46,6 +46,10 @@ class ZMXReader:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From 34976c4cd2fe3ec91b3c04f8ecf351d2efdecde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 31/54] fix: Zemax files whose only wavelength is 0.55

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 01a40bf..7eac0b9 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -61,7 +61,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From e85d9f67c6b56ca33f3d3c3789d862cb83edf7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 32/54] fix: a sub-path starts in the medium and aperture of
 the space it is in

---
 raytracing/imagingpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 8a935ec..1897427 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -944,12 +944,12 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
+                    newElements = [Space(zStart - z, n=element.frontIndex, diameter=element.apertureDiameter)]
                     if i != 0:
                         newElements.extend(self.elements[i-1::-1])
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex, diameter=element.apertureDiameter)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From 696c3ded79444e8cae74aa7ec47bc5db986b63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 33/54] fix: a backwards sub-path meets the other side of each
 element, and leaves the path as it is

---
 raytracing/imagingpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 1897427..aa81254 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -2,6 +2,7 @@ from typing import Any, Union, List
 from .figure import Figure
 from .matrixgroup import *
 from .ray import *
+import copy
 import numpy as np
 
 """ We start with general, useful namedtuples to simplify management of values """
@@ -945,8 +946,12 @@ class ImagingPath(MatrixGroup):
                                                           'position of another element.'
                 if backwards:
                     newElements = [Space(zStart - z, n=element.frontIndex, diameter=element.apertureDiameter)]
-                    if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                    for previousElement in reversed(self.elements[:i]):
+                        # Light meets the other side of the elements, but the same side of the mirrors
+                        backwardElement = copy.deepcopy(previousElement)
+                        if not isinstance(backwardElement, CurvedMirror):
+                            backwardElement.flipOrientation()
+                        newElements.append(backwardElement)
                     return ImagingPath(elements=newElements)
                 else:
                     newElements = [Space(z + element.L - zStart, n=element.frontIndex, diameter=element.apertureDiameter)]
-- 
2.43.0


From 38e73ef3c465282be00d982261998a6d81acab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 34/54] fix: an axicon leaves a blocked ray alone

---
 raytracing/axicon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..016455d 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -99,6 +99,9 @@ class Axicon(Matrix):
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
 
+        if rightSideRay.isBlocked:
+            return outputRay  # A blocked ray goes no further: it is not deviated
+
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
         elif rightSideRay.y < 0:
-- 
2.43.0


From 322840ba6b4a83603c299eb34f804f50988f3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 35/54] fix: preferences can be opened with values

---
 raytracing/preferences.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..ec6934b 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -4,8 +4,6 @@ import platform
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,6 +24,7 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
-- 
2.43.0


From a0bd2fc0e06220ef9edde59e6412dfe8adc81f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 36/54] fix: reading preferences takes what is on disk, and
 does not write it again

---
 raytracing/preferences.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ec6934b..e5f33fe 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -48,12 +48,16 @@ class Preferences(dict):
 
     def readFromDisk(self):
         if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
+            with open(self.path, "r") as prefFile:
                 try:
                     data = json.load(prefFile)
                 except Exception as err:
                     data = dict()
-            self.update(data)
+            if not isinstance(data, dict):
+                data = dict()
+            # What is on disk replaces what we have, and is not written again
+            super().clear()
+            super().update(data)
         else:
             self.clear()
             self.writeToDisk()
-- 
2.43.0


From 7716729d3f4949ab714bad63d0528ff83193c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 37/54] fix: setting a preference keeps those set by other
 instances

---
 raytracing/preferences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index e5f33fe..5e462dd 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -35,6 +35,7 @@ class Preferences(dict):
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        self.readFromDisk()  # Other instances may have set other preferences
         super().__setitem__(key, value)
         self.writeToDisk()
 
-- 
2.43.0


From 4baeda332fa82e34ecac7c60071f112ac238ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 38/54] fix: a preference set by another instance is found

---
 raytracing/preferences.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 5e462dd..ed39462 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -34,6 +34,14 @@ class Preferences(dict):
         self.readFromDisk()
         return super().__getitem__(key)
 
+    def __contains__(self, key):
+        self.readFromDisk()
+        return super().__contains__(key)
+
+    def get(self, key, default=None):
+        self.readFromDisk()
+        return super().get(key, default)
+
     def __setitem__(self, key, value):
         self.readFromDisk()  # Other instances may have set other preferences
         super().__setitem__(key, value)
-- 
2.43.0


From 0b0ef4ff2b4a1475b96647de21f4a2662f885509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 39/54] fix: a preference deleted stays deleted

---
 raytracing/preferences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ed39462..85839b6 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -47,6 +47,11 @@ class Preferences(dict):
         super().__setitem__(key, value)
         self.writeToDisk()
 
+    def __delitem__(self, key):
+        self.readFromDisk()
+        super().__delitem__(key)
+        self.writeToDisk()
+
     def resetPreferences(self):
         try:
             os.remove(self.path)
-- 
2.43.0


From 0b9063c197994eedb74b2c9a15017cc4b8efb3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 40/54] fix: preferences are not lost when saving them fails or
 stops

---
 raytracing/preferences.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 85839b6..53d2ed1 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -77,5 +77,9 @@ class Preferences(dict):
             self.writeToDisk()
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        # The file is replaced at once: stopping or failing here leaves it as it was
+        content = json.dumps(self)
+        temporaryPath = "{0}.{1}".format(self.path, os.getpid())
+        with open(temporaryPath, "w") as prefFile:
+            prefFile.write(content)
+        os.replace(temporaryPath, self.path)
-- 
2.43.0


From 3afd1357edb8971e13f8ad9ad588b9c0e97bcd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 41/54] fix: axial rays can be drawn in a single colour

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..d0558fb 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -419,7 +419,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = 1 % len(colors)
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From f569a3d6a69d493f89be2646e47914089899ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 42/54] fix: the box of an element is drawn where the element
 is

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..db5643a 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From c97b151159de41408512e54b6b0234244b27ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 43/54] fix: the largest diameter of a lens is its diameter

---
 raytracing/matrix.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 853b34e..aa5c44c 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1539,18 +1539,6 @@ class Lens(Matrix):
             self._physicalHalfHeight = self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
-    @property
-    def largestDiameter(self):
-        """ Largest diameter for a group of elements
-
-        Returns
-        -------
-        LargestDiameter : float
-            Largest diameter of the element or group of elements. For a `Matrix`
-            this will simply be the aperture diameter of this element.
-        """
-        return self._physicalHalfHeight
-
 
 class CurvedMirror(Matrix):
     r"""A curved mirror of radius R and infinite or finite diameter.
-- 
2.43.0


From 6180e10255ef7c6ed472e71d2aea77040ad4aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 44/54] fix: a flipped flat surface is drawn flat

---
 raytracing/graphicComponents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..99f85b7 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if np.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if np.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if np.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
-- 
2.43.0


From 4f6db32b4c3ad539047262b6bb54aa364cf5a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 45/54] fix: a flipped element is drawn flipped

---
 raytracing/matrix.py          | 11 ++++++++++-
 raytracing/specialtylenses.py |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index aa5c44c..dd86de6 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -182,6 +182,9 @@ class Matrix(object):
 
         return self.A * self.D - self.B * self.C
 
+    # True when forwardSurfaces already describes the element as it is when it is flipped
+    surfacesFollowFlip = False
+
     @property
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes """
@@ -191,7 +194,7 @@ class Matrix(object):
     def surfaces(self):
         surfaces = self.forwardSurfaces
 
-        if self.isFlipped:
+        if self.isFlipped and not self.surfacesFollowFlip:
             surfaces.reverse()
             for i, surface in enumerate(surfaces):
                 if type(surface) == SphericalInterface:
@@ -1579,6 +1582,8 @@ class CurvedMirror(Matrix):
                                            backVertex=0,
                                            label=label)
 
+    surfacesFollowFlip = True
+
     @property
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
@@ -1747,6 +1752,8 @@ class DielectricInterface(Matrix):
                                                   backIndex=n2,
                                                   label=label)
 
+    surfacesFollowFlip = True
+
     @property
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
@@ -1828,6 +1835,8 @@ class ThickLens(Matrix):
                                         backVertex=thickness,
                                         label=label)
 
+    surfacesFollowFlip = True
+
     @property
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 22217d8..978bc17 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -42,6 +42,8 @@ class CompoundLens(MatrixGroup):
         (f1, f2) = self.focusPositions(z)
         return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
 
+    surfacesFollowFlip = True
+
     @property
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
@@ -222,6 +224,8 @@ class AchromatDoubletLens(CompoundLens):
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
             warnings.warn(msg, ExpertNote)
 
+    surfacesFollowFlip = False
+
     @property
     def forwardSurfaces(self) -> List[Interface]:
         return [SphericalInterface(R=self.R1, L=self.tc1, n=self.n1),
@@ -335,6 +339,8 @@ class SingletLens(CompoundLens):
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
             warnings.warn(msg, ExpertNote)
 
+    surfacesFollowFlip = False
+
     @property
     def forwardSurfaces(self) -> List[Interface]:
         return [SphericalInterface(R=self.R1, L=self.tc, n=self.n),
-- 
2.43.0


From 04dbf527572c81573c2e1ee2cac2cc4c05dd4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 46/54] fix: the design of a path is kept once it is displayed

---
 raytracing/imagingpath.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index aa81254..37101b4 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -979,6 +979,7 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        savedDesignParams = dict(self.figure.designParams)  # the arguments are for this display only
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1016,9 +1017,9 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams = savedDesignParams
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From d775dc1edef79f7811531c2ada011b01918ee32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 47/54] fix: displaying rays leaves the list of rays as given

---
 raytracing/imagingpath.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 37101b4..7963ab2 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -986,8 +986,7 @@ class ImagingPath(MatrixGroup):
             self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
         self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
 
-        if raysList is None:
-            raysList = []
+        raysList = [] if raysList is None else list(raysList)
         if rays is not None:
             raysList.append(rays)
 
-- 
2.43.0


From ace109589567e06147169919a82e1bb3dd634d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 48/54] fix: displaying beams again does not repeat the
 annotations

---
 raytracing/figure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index d0558fb..740cd80 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -561,6 +561,7 @@ class Figure:
     def displayGaussianBeam(self, beams=None,
                             title=None, comments=None, backend='matplotlib', display3D=False, filepath=None):
         self.lineGroups['rays'] = []
+        self.annotations = []
         self.graphicGroups[kElementsKey] = self.graphicsOfElements
         for beam in beams:
             self.lineGroups['rays'].extend(self.beamTraceLines(beam))
-- 
2.43.0


From d8427c6bdfbac90f967ac49be4c25e1ff7ae303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 49/54] fix: drawing a lens leaves the lens as it is

A lens without aperture grew to the height of the rays displayed and stayed
so: its display height and the largest diameter of its path depended on what
had been displayed before.
---
 raytracing/graphics.py | 9 +++++----
 raytracing/matrix.py   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index db5643a..d73b2cc 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,15 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
-
+        self.minSize = minSize
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        halfHeight = self.matrix.displayHalfHeight()
+        if self.matrix.apertureDiameter == float('+Inf'):
+            halfHeight = max(halfHeight, self.minSize)
+        return [DoubleThinArrow(halfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index dd86de6..476e213 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1539,7 +1539,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
 
-- 
2.43.0


From 31b6d8c449d44bc586cf32463e40ad6f9c4bd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 50/54] fix: an unreadable date of the last version check does
 not prevent importing

---
 raytracing/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..0e6ba7b 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -72,7 +72,10 @@ import tempfile
 def lastCheckMoreThanADay():
     if "lastVersionCheck" in prefs:
         isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        try:
+            then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        except (TypeError, ValueError):
+            return True
         difference = datetime.now() - then
         if difference.days > 1:
             return True
@@ -85,7 +88,7 @@ def lastCheckMoreThanADay():
 prefs = Preferences()
 if lastCheckMoreThanADay():
     checkLatestVersion(currentVersion=__version__)
-    prefs["lastVersionCheck"] = datetime.now().isoformat()
+    prefs["lastVersionCheck"] = datetime.now().isoformat(timespec="microseconds")
 
 if "RAYTRACING_EXPERT" in os.environ:
     prefs["mode"] = "expert"
-- 
2.43.0


From 911a3bb94904d20b1ed6d904329e5990e3b0b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 51/54] fix: the latest version is the highest released, not
 the last listed

---
 raytracing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..0cf34c3 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -246,7 +246,7 @@ def checkLatestVersion(currentVersion):
         with urllib.request.urlopen(req, timeout=1) as response:
             data = json.load(response)
             versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            latestVersion = max(versions)
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From d5a46ef5f2684c986ae873509f38e3ca7eaf40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 52/54] fix: preferences that cannot be read or written do not
 prevent importing

---
 raytracing/preferences.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 53d2ed1..8680605 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -1,6 +1,7 @@
 import os
 import json
 import platform
+import warnings
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
@@ -62,11 +63,11 @@ class Preferences(dict):
 
     def readFromDisk(self):
         if os.path.exists(self.path):
-            with open(self.path, "r") as prefFile:
-                try:
+            try:
+                with open(self.path, "r") as prefFile:
                     data = json.load(prefFile)
-                except Exception as err:
-                    data = dict()
+            except Exception as err:
+                data = dict()
             if not isinstance(data, dict):
                 data = dict()
             # What is on disk replaces what we have, and is not written again
@@ -80,6 +81,9 @@ class Preferences(dict):
         # The file is replaced at once: stopping or failing here leaves it as it was
         content = json.dumps(self)
         temporaryPath = "{0}.{1}".format(self.path, os.getpid())
-        with open(temporaryPath, "w") as prefFile:
-            prefFile.write(content)
-        os.replace(temporaryPath, self.path)
+        try:
+            with open(temporaryPath, "w") as prefFile:
+                prefFile.write(content)
+            os.replace(temporaryPath, self.path)
+        except OSError as err:
+            warnings.warn("Preferences could not be saved: {0}".format(err))
-- 
2.43.0


From 192658997906224a49218b7784c1bd11f14140b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 53/54] fix: apertures of an objective are drawn as wide as
 they are

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index d73b2cc..6b07db2 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -447,7 +447,7 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
+                halfHeight = element.apertureDiameter / 2.0
                 components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
             z += element.L
 
-- 
2.43.0


From 1450b08d79770c88d6c87d744bcf36bb8ade0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 54/54] fix: the report of efficiency is made whatever becomes
 of the rays of the source

---
 raytracing/imagingpath.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7963ab2..7b3a6b6 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -898,14 +898,15 @@ class ImagingPath(MatrixGroup):
         print("\nEfficiency")
         print("----------")
         print(" Collection efficiency from Monte Carlo: {0:.1f}% of ±{2:.2f} radian, over field diameter of {1:.1f} mm".format(100*len(notBlocked)/sourceRays.maxCount, 2*maxHeight, maxAngle))
-        print(" Collection efficiency from ratio of system to source invariants: {0:.1f}%".format(Iap/Is*100))
+        print(" Collection efficiency from ratio of system to source invariants: {0:.1f}%".format(Iap/Is*100 if Is != 0 else float("+inf")))
         stopPosition, stopDiameter = self.apertureStop()
         print(" Efficiency limited by {0:.1f} mm diameter of AS at z={1:.1f}".format(stopDiameter, stopPosition))
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked)+len(notBlocked) > 0:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) > 0:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -917,12 +918,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) > 0:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) > 0:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) > 0:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0

