From 4e5a2fe9de4f68d54fbdc7e15bf9c3a96379cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 01/78] fix: size parameter limits of array-backed parameter
 lists by their parameter count

MogParams (GaussianMixturePSF) and NpArrayParams keep their values outside
ParamList.vals, so getLowerBounds()/getUpperBounds()/getMaxStep() returned
empty lists, misaligning the limits of every group containing one.
---
 tractor/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2a30fa3..c7afa8e 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -714,10 +714,12 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
 
     def __init__(self, *args):
         self.vals = list(args)
-        self.lowers = [None for v in self.vals]
-        self.uppers = [None for v in self.vals]
-        self.maxstep = [None for v in self.vals]
         super(ParamList, self).__init__()
+        # (subclasses may keep their values somewhere other than self.vals)
+        n = self._numberOfThings()
+        self.lowers = [None] * n
+        self.uppers = [None] * n
+        self.maxstep = [None] * n
 
     def copy(self):
         cop = super(ParamList, self).copy()
@@ -1278,9 +1280,13 @@ class NpArrayParams(ParamList):
         self.a = np.array(a)
         super(NpArrayParams, self).__init__()
         del self.vals
+        n = self._numberOfThings()
+        self.lowers = [None] * n
+        self.uppers = [None] * n
+        self.maxstep = [None] * n
         # from NamedParams...
         # active/inactive
-        self.liquid = [True] * self._numberOfThings()
+        self.liquid = [True] * n
 
     def __getattr__(self, name):
         if name == 'vals':
-- 
2.43.0


From 4a5f07fb147b28ed94e1b04c9f20ea004704b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 02/78] fix: unnamed parameters keep their name when an earlier
 one is frozen

ParamList.getParamNames() numbered unnamed parameters by their position among
the thawed ones, disagreeing with getParamStateRecursive() (and MultiParams).
---
 tractor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index c7afa8e..5503ef7 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -746,7 +746,7 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
         for i, j in self._indexBoth():
             nm = self.getNamedParamName(j)
             if nm is None:
-                nm = 'param%i' % i
+                nm = 'param%i' % j
             n.append(nm)
         return n
 
-- 
2.43.0


From 5bb42c39c2f50fddeb42f32056eeefbc5a63f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:14 +0000
Subject: [PATCH 03/78] fix: setStepSizes() with frozen parameters

Once step sizes had been set, setStepSizes() indexed its argument (one entry
per thawed parameter) by raw parameter index: IndexError, or the wrong steps.
---
 tractor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 5503ef7..7c1ec1d 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -453,7 +453,7 @@ class NamedParams(object):
                     newss.append(1.)
             self.stepsizes = newss
         else:
-            for i, s in self._enumerateLiquidArray(ss):
+            for s, i in zip(ss, self.getThawedParamIndices()):
                 self.stepsizes[i] = s
 
     def setAllStepSizes(self, ss):
-- 
2.43.0


From ea5f792c20037b15904e95104cc9ee8ec3bd5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:14 +0000
Subject: [PATCH 04/78] fix: MagsPhotoCal step sizes honour the frozen
 zeropoint

getStepSizes() always returned one step, even with zp frozen, misaligning the
step sizes of every later parameter of the image (and ignored setStepSizes()).
---
 tractor/brightness.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 63f7237..0d3adb7 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -285,7 +285,10 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def getNamedParams():
         return dict(zp=0)
 
-    def getStepSizes(self, *args, **kwargs):
+    def getAllStepSizes(self, *args, **kwargs):
+        ss = getattr(self, 'stepsizes', None)
+        if ss is not None:
+            return ss
         return [0.01]
 
     def brightnessToCounts(self, brightness):
-- 
2.43.0


From e6f388443487e6da2f877a90acad2cea32343c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:45 +0000
Subject: [PATCH 05/78] fix: setStepSizes() leaves the step sizes of frozen
 parameters alone

The first setStepSizes() call on an object reset its frozen parameters' step
sizes to 1 rather than to the class default.
---
 tractor/utils.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 7c1ec1d..3fde9e8 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -442,19 +442,14 @@ class NamedParams(object):
         return [1.] * len(self.getAllParams())
 
     def setStepSizes(self, ss):
-        if not hasattr(self, 'stepsizes'):
-            newss = []
-            j = 0
-            for i, ll in enumerate(self.liquid):
-                if ll:
-                    newss.append(ss[j])
-                    j += 1
-                else:
-                    newss.append(1.)
-            self.stepsizes = newss
-        else:
-            for s, i in zip(ss, self.getThawedParamIndices()):
-                self.stepsizes[i] = s
+        # (frozen parameters keep the step sizes they have)
+        allss = getattr(self, 'stepsizes', None)
+        if allss is None:
+            allss = self.getAllStepSizes()
+        allss = list(allss)
+        for s, i in zip(ss, self.getThawedParamIndices()):
+            allss[i] = s
+        self.stepsizes = allss
 
     def setAllStepSizes(self, ss):
         self.stepsizes = ss
-- 
2.43.0


From 01fb449cfdac919d51f1600a3009801da5f36c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:45 +0000
Subject: [PATCH 06/78] fix: EllipseESoft.getAllStepSizes() raised KeyError

It inherited the EllipseE version, which reads parameters e1,e2 that this
class does not have; so did every catalog containing such a galaxy.
---
 tractor/ellipses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index f6810af..2570e65 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -222,8 +222,9 @@ class EllipseESoft(EllipseE):
         ee2 = ee * math.sin(angle)
         return (math.log(r), ee1, ee2)
 
-    # def getAllStepSizes(self, *args, **kwargs):
-    #    return [0.01] * 3
+    def getAllStepSizes(self, *args, **kwargs):
+        # Have to override this because the superclass uses e1,e2.
+        return self.stepsizes
 
     def __repr__(self):
         return 'log r_e=%.3f, ee1=%.3f, ee2=%.3f' % (self.logre, self.ee1, self.ee2)
-- 
2.43.0


From bbd0c55ba6772e98514ec46d4f5ad9ab94e271fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:50 +0000
Subject: [PATCH 07/78] fix: approx3 start pixel stays inside boxes at negative
 coordinates

(x0+x1)/2 truncates toward zero, so for a box such as [-25,-24) the fallback
start pixel was outside the box and the result was written out of bounds.
---
 tractor/approx3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index cc4192e..9f4f2cd 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -130,8 +130,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
             int newxc, newyc;
             int ix,iy;
             double maxpix = 0.;
-            newxc = (x0+x1)/2;
-            newyc = (y0+y1)/2;
+            newxc = x0 + (x1-x0)/2;
+            newyc = y0 + (y1-y0)/2;
             // We search along the edge(s) nearest the given xc,yc.
             if ((xc < x0) || (xc >= x1)) {
                 if (xc < x0) {
-- 
2.43.0


From 94b9d774f3538d113fe00feeb2291c0737b34e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:50 +0000
Subject: [PATCH 08/78] fix: Fourier transform of a mixture mixing zero and
 non-zero means

The accumulator took the (real) type of the first component, so adding a
complex component raised.
---
 tractor/mixture_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index e8f9dd2..c1a7079 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -213,7 +213,7 @@ class MixtureOfGaussians(object):
             if Fsum is None:
                 Fsum = amp * F
             else:
-                Fsum += amp * F
+                Fsum = Fsum + amp * F
 
         return Fsum
 
-- 
2.43.0


From c55b1740f0e87111cdd248c1ff6bf070b9b1b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:34 +0000
Subject: [PATCH 09/78] fix: division of patches and arithmetic parameters
 under Python 3

Only the Python 2 hooks __div__ / __idiv__ were defined, so / and /= raised
TypeError.
---
 tractor/patch.py | 4 ++++
 tractor/utils.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 4e5e120..98ecc96 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -392,6 +392,8 @@ class Patch(object):
             self.patch /= f
         return self
 
+    __itruediv__ = __idiv__
+
     # Implement *, / for numeric types
     def __mul__(self, f):
         if self.patch is None:
@@ -403,6 +405,8 @@ class Patch(object):
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch / f)
 
+    __truediv__ = __div__
+
     def performArithmetic(self, other, opname, otype=float):
         assert(isinstance(other, Patch))
         if (self.x0 == other.getX0() and self.y0 == other.getY0() and
diff --git a/tractor/utils.py b/tractor/utils.py
index 3fde9e8..0ea41f9 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -915,6 +915,9 @@ class ArithmeticParams(object):
     __rsub__ = __sub__
     __rmul__ = __mul__
     __rdiv__ = __div__
+    # Python 3 names
+    __truediv__ = __div__
+    __itruediv__ = __idiv__
 
 
 class MultiParams(BaseParams, NamedParams):
-- 
2.43.0


From ea583d874ace9003133ab87567471e422c04130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:34 +0000
Subject: [PATCH 10/78] fix: number minus (or divided by) parameters had its
 operands swapped

---
 tractor/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 0ea41f9..52f89c6 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -911,13 +911,24 @@ class ArithmeticParams(object):
             self.setAllParams([x / other for x in self.getAllParams()])
         return self
 
+    def __rsub__(self, other):
+        ''' (number) - self '''
+        res = self.copy()
+        res.setAllParams([other - x for x in res.getAllParams()])
+        return res
+
+    def __rdiv__(self, other):
+        ''' (number) / self '''
+        res = self.copy()
+        res.setAllParams([other / x for x in res.getAllParams()])
+        return res
+
     __radd__ = __add__
-    __rsub__ = __sub__
     __rmul__ = __mul__
-    __rdiv__ = __div__
     # Python 3 names
     __truediv__ = __div__
     __itruediv__ = __idiv__
+    __rtruediv__ = __rdiv__
 
 
 class MultiParams(BaseParams, NamedParams):
-- 
2.43.0


From a7ee494517fc795a68fafbbbfb3802bab754aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:34 +0000
Subject: [PATCH 11/78] fix: adding or subtracting a patch with no image raised

---
 tractor/patch.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 98ecc96..109f914 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -420,6 +420,14 @@ class Patch(object):
             op = getattr(pcopy, opname)
             return Patch(self.x0, self.y0, op(other.patch))
 
+        # A patch with no image is zero everywhere.
+        if other.patch is None:
+            return self.copy()
+        if self.patch is None:
+            p = np.zeros(other.shape, dtype=otype)
+            getattr(p, opname)(other.patch)
+            return Patch(other.x0, other.y0, p)
+
         (ph, pw) = self.patch.shape
         (ox0, oy0) = other.getX0(), other.getY0()
         (oh, ow) = other.shape
-- 
2.43.0


From 76c7ed6d48740fe0f182047f9c3b14620586005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:34 +0000
Subject: [PATCH 12/78] fix: clipTo() reports no overlap for patches left of or
 below the image

as it already did for patches right of or above it.
---
 tractor/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 109f914..0fbdcf3 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -248,6 +248,9 @@ class Patch(object):
         if self.y0 >= H:
             self.patch = None
             return False
+        if self.x1 <= 0 or self.y1 <= 0:
+            self.patch = None
+            return False
         # debug
         #o0 = (self.x0, self.y0, self.patch.shape)
         if self.x0 < 0:
-- 
2.43.0


From 65f2b3873a3ab02f09e36e52d49b04cf72529614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 13/78] fix: position derivatives with a NullWCS were too large
 by 3600/pixscale

Positions are pixel coordinates there, so the derivative with respect to the
position is the pixel derivative.
---
 tractor/wcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 36ca902..df8dfc3 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -40,7 +40,8 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.cd_inverse
 
     def cdInverseAtPosition(self, pos, src=None):
-        return self.cd_inverse
+        # Positions *are* pixel coordinates.
+        return np.eye(2)
 
     def pixscale_at(self, x, y):
         return self.pixscale
-- 
2.43.0


From 47ae6e7a3572c6ef22fe1b638718c439341f8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 14/78] fix: derivative with respect to RA misses a factor
 cos(Dec)

---
 tractor/ducks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/ducks.py b/tractor/ducks.py
index 25f7b4e..497ce93 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -412,12 +412,15 @@ class WCS(ImageCalibration, Params):
 
     def pixelDerivsToPositionDerivs(self, pos, src, counts0, patch0, patchdx, patchdy):
         # Convert x,y derivatives to Position derivatives
+        import numpy as np
         cdi = self.cdInverseAtPosition(pos, src=src)
         # Get thawed Position parameter indices
         derivs = []
         for i,pname in pos.getThawedParamIndicesAndNames():
+            # the CD matrix is in terms of dRA * cos(Dec); the parameter is RA.
+            cosdec = np.cos(np.deg2rad(pos.dec)) if pname == 'ra' else 1.
             deriv = (patchdx * cdi[0, i] +
-                     patchdy * cdi[1, i]) * counts0
+                     patchdy * cdi[1, i]) * (counts0 * cosdec)
             deriv.setName('d(ptsrc)/d(pos.%s)' % pname)
             derivs.append(deriv)
         return derivs
-- 
2.43.0


From 15e26acd5abb3cf7981e94215ed0eb1fab7d6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 15/78] fix: NullWCS copies, shifts and inverts itself
 correctly

copy() lost the pixel scale and offsets, shifted() ignored the shift (so
subimages were misplaced), and pixelToPosition() did not return a Position.
---
 tractor/wcs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index df8dfc3..dcf0054 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -20,7 +20,10 @@ class NullWCS(BaseParams, ducks.WCS):
         self.setPixscale(pixscale)
 
     def hashkey(self):
-        return ('NullWCS', self.dx, self.dy)
+        return ('NullWCS', self.dx, self.dy, self.pixscale)
+
+    def copy(self):
+        return NullWCS(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
 
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
@@ -31,7 +34,7 @@ class NullWCS(BaseParams, ducks.WCS):
         return pos.x + self.dx, pos.y + self.dy
 
     def pixelToPosition(self, x, y, src=None):
-        return x - self.dx, y - self.dy
+        return PixPos(x - self.dx, y - self.dy)
 
     def cdAtPixel(self, x, y):
         return self.cd
@@ -47,7 +50,7 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.pixscale
 
     def shifted(self, x, y):
-        return self.copy()
+        return NullWCS(pixscale=self.pixscale, dx=self.dx - x, dy=self.dy - y)
 
 
 class WcslibWcs(BaseParams, ducks.ImageCalibration):
-- 
2.43.0


From 1b1e92eed4a613cde465d5ecfcbce3ea5f5d9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:28 +0000
Subject: [PATCH 16/78] fix: ScaledWcs looked up the CD matrix at the wrong y
 pixel

---
 tractor/shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 8613ba4..f1640a7 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -141,7 +141,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
         return ('ScaledWcs', self.factor) + tuple(self.wcs.hashkey())
 
     def cdAtPixel(self, x, y):
-        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) * self.factor - 0.5
+        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) / self.factor - 0.5
         cd = self.wcs.cdAtPixel(x, y)
         return cd / self.factor
 
-- 
2.43.0


From 7ce48de8a3a75877814cdf967404dbfb502c0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:44 +0000
Subject: [PATCH 17/78] fix: galaxies could not be rendered through ShiftedWcs
 or ScaledWcs

These wrappers lacked the inverse CD matrix (and the rest of the WCS
interface) that galaxy rendering uses.
---
 tractor/shifted.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index f1640a7..266fa8c 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -131,7 +131,7 @@ class ScaledPhotoCal(ParamsWrapper, ducks.ImageCalibration):
         return self.factor * self.pc.brightnessToCounts(brightness)
 
 
-class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
+class ScaledWcs(ParamsWrapper, ducks.WCS):
     def __init__(self, wcs, factor):
         super(ScaledWcs, self).__init__(wcs)
         self.factor = factor
@@ -152,7 +152,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
                 (y + 0.5) * self.factor - 0.5)
 
 
-class ShiftedWcs(ParamsWrapper, ducks.ImageCalibration):
+class ShiftedWcs(ParamsWrapper, ducks.WCS):
     '''
     Wraps a WCS in order to use it for a subimage.
     '''
@@ -178,6 +178,9 @@ class ShiftedWcs(ParamsWrapper, ducks.ImageCalibration):
     def hashkey(self):
         return ('ShiftedWcs', self.x0, self.y0) + tuple(self.wcs.hashkey())
 
+    def shifted(self, dx, dy):
+        return ShiftedWcs(self.wcs, self.x0 + dx, self.y0 + dy)
+
     def cdAtPixel(self, x, y):
         return self.wcs.cdAtPixel(x + self.x0, y + self.y0)
 
-- 
2.43.0


From f4435e14ce7fc4ae5f3f1690fdf7313030dba07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:29 +0000
Subject: [PATCH 18/78] fix: EllipseESoft.fromEllipseE of a round ellipse
 divided by zero

---
 tractor/ellipses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index 2570e65..9b35f4c 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -200,6 +200,8 @@ class EllipseESoft(EllipseE):
     def fromEllipseE(ell, maxe=0.999999):
         e = ell.e
         e = min(e, maxe)
+        if e == 0.:
+            return EllipseESoft(math.log(ell.re), 0., 0.)
         esoft = -math.log(1. - e)
         return EllipseESoft(math.log(ell.re), ell.e1 / e * esoft, ell.e2 / e * esoft)
 
-- 
2.43.0


From 00976d94a7a2f50a850c63618b631e7adfa0e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:29 +0000
Subject: [PATCH 19/78] fix: composite galaxies with Flux brightnesses have a
 total brightness

getBrightness() adds the components' brightnesses; Flux could not be added.
---
 tractor/brightness.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 0d3adb7..50c536e 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -22,6 +22,11 @@ class Flux(ScalarParam):
         return new
     __rmul__ = __mul__
 
+    def __add__(self, other):
+        new = self.copy()
+        new.val += other.val
+        return new
+
 
 class MultiBandBrightness(ParamList, ducks.Brightness):
     '''
-- 
2.43.0


From 32967d62fe1a94fb7c10bc79b23b4be8eaa35568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:07 +0000
Subject: [PATCH 20/78] fix: NormalizedPsf modified the PSF it normalises while
 rendering

Each rendering divided the PSF image (and the cached Fourier transform) in
place, so rendering changed the PSF object, and the next rendering of the
same source differed.
---
 tractor/psf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 033a2da..b2ed175 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -949,14 +949,16 @@ class NormalizedPsf(object):
         fft, (cx,cy), shape, (v,w) = super().getFourierTransform(px, py, radius)
         n = np.abs(fft[0][0])
         if n != 0:
-            fft /= n
+            # (not in place: this is the cached transform)
+            fft = fft / n
         return fft, (cx,cy), shape, (v,w)
 
     def getImage(self, px, py):
         img = super().getImage(px, py)
         n = np.sum(img)
         if n != 0:
-            img /= n
+            # (not in place: this is the PSF model's own image)
+            img = img / n
         return img
 
     def _sampleImage(self, img, dx, dy, **kwargs):
-- 
2.43.0


From 390e51595f5f1bdcc0a47d9890e643be822d0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 21/78] fix: pixelized PSF cut to a radius lost its last row
 and column

A radius reaching the edge of the PSF stamp dropped the last row and column
(slice end H-1 instead of H).
---
 tractor/psf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index b2ed175..cbfa768 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -151,8 +151,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             H,W = img.shape
             cx = W//2
             cy = H//2
-            img = img[max(cy-R, 0) : min(cy+R+1,H-1),
-                      max(cx-R, 0) : min(cx+R+1,W-1)]
+            img = img[max(cy-R, 0) : min(cy+R+1,H),
+                      max(cx-R, 0) : min(cx+R+1,W)]
             
         H, W = img.shape
         # float() required because builtin round(np.float64(11.0)) returns 11.0 !!
@@ -337,8 +337,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             cy = H//2
             xlo = max(cx-R, 0)
             ylo = max(cy-R, 0)
-            img = img[ylo : min(cy+R+1,H-1),
-                      xlo : min(cx+R+1,W-1)]
+            img = img[ylo : min(cy+R+1,H),
+                      xlo : min(cx+R+1,W)]
             x0 += xlo
             y0 += ylo
 
-- 
2.43.0


From 7a0e1ac101c3fea4c242b6edcd3635398d05caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:17 +0000
Subject: [PATCH 22/78] fix: small galaxies vanished from nearby windows with a
 hybrid PSF

With a hybrid PSF, a galaxy whose centre lies outside the model mask was
dropped when further away than its own radius, ignoring the PSF: a nearly
point-like galaxy two pixels from the window rendered nothing.
---
 tractor/galaxy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 27117ac..6652c12 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -365,7 +365,11 @@ class ProfileGalaxy(object):
                     neardy = py - y1
                 nearest = np.hypot(neardx, neardy)
                 pixscale = img.wcs.pixscale_at((x0+x1)/2., (y0+y1)/2.)
-                if nearest > (self.getRadius() / pixscale) and not force_sourceOut:
+                radius = self.getRadius() / pixscale
+                if hybrid:
+                    # the PSF spreads even a small galaxy
+                    radius = max(radius, psf.getRadius())
+                if nearest > radius and not force_sourceOut:
                     return None
 
                 if hybrid:
-- 
2.43.0


From 773e3c990b5dc34f239855646d693a2b4bfcd5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:40 +0000
Subject: [PATCH 23/78] fix: FixedCompositeGalaxy derivatives were misaligned
 when its brightness is frozen

---
 tractor/galaxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 6652c12..67493b3 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -952,6 +952,9 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
         if self.isParamFrozen('pos'):
             e.freezeParam('pos')
             d.freezeParam('pos')
+        if self.isParamFrozen('brightness'):
+            e.freezeParam('brightness')
+            d.freezeParam('brightness')
         if self.isParamFrozen('shapeExp'):
             e.freezeParam('shape')
         if self.isParamFrozen('shapeDev'):
-- 
2.43.0


From 51607eca0c172f45a4f32a38eb470d034086a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:40 +0000
Subject: [PATCH 24/78] fix: SersicGalaxy returned one derivative too many when
 it does not overlap the image

---
 tractor/sersic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 33263c5..7a4873c 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -408,7 +408,7 @@ class SersicGalaxy(HoggGalaxy):
         pos0 = self.getPosition()
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         if patch0 is None:
-            derivs.append(None)
+            # the superclass has returned a None for each of our parameters
             return derivs
         counts = img.getPhotoCal().brightnessToCounts(self.brightness)
 
@@ -438,6 +438,7 @@ class SersicGalaxy(HoggGalaxy):
                     print('  stepped', step)
                     print('  to', self.sersicindex.getParams()[i])
                     derivs.append(None)
+                    continue
 
                 dx = (newpatch - patch0) * (counts / step)
                 dx.setName('d(%s)/d(%s)' % (self.dname, inames[i]))
-- 
2.43.0


From 5a0f69e3efbfaef898d2eca2a13a465d1510db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:07 +0000
Subject: [PATCH 25/78] fix: galaxy shape derivatives compared models rendered
 in different ways

---
 tractor/galaxy.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 67493b3..d53366a 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -155,10 +155,21 @@ class Galaxy(MultiParams, SingleProfileSource):
             derivs.extend([None] * self.numberOfParams())
             return derivs
 
+        # the model that the shape-stepped models are compared with
+        shapepatch0 = patch0
         if modelMask is None:
             x0,x1,y0,y1 = patch0.getExtent()
-            modelMask = ModelMask.fromExtent(x0,x1,y0,y1)
-        assert(modelMask is not None)
+            # If the source center is outside its patch, fixing the extent
+            # would switch to a different rendering method (or fail), so
+            # that stepped models could not be compared with patch0.
+            if not (px0 < x0 or px0 > x1 - 1 or py0 < y0 or py0 > y1 - 1):
+                modelMask = ModelMask.fromExtent(x0,x1,y0,y1)
+                if counts != 0 and not self.isParamFrozen('shape'):
+                    # Fixing the extent can change the size of the FFTs, so
+                    # render the unstepped model in the same way.
+                    shapepatch0 = self.getUnitFluxModelPatch(
+                        img, px=px0, py=py0, minval=minval,
+                        modelMask=modelMask, **kwargs)
 
         # derivatives wrt position
         if self.isParamThawed('pos') and (self.pos.numberOfParams() > 0):
@@ -217,7 +228,7 @@ class Galaxy(MultiParams, SingleProfileSource):
                     print('  to', self.shape.getParams()[i])
                     derivs.append(None)
                     continue
-                dx = (patchx - patch0) * (counts / gstep)
+                dx = (patchx - shapepatch0) * (counts / gstep)
                 dx.setName('d(%s)/d(%s)' % (self.dname, gnames[i]))
                 derivs.append(dx)
         return derivs
-- 
2.43.0


From 290443c813ba4939dbf6484e078dac1cfa6e3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:54 +0000
Subject: [PATCH 26/78] fix: LsqrOptimizer failed when the last parameters have
 no derivatives

With shared_params=True (the default) the matrix was only as wide as the
last parameter with a nonzero derivative, so expanding the solution back to
the parameter vector raised IndexError.
---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index ad89c3d..43e6a84 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -501,7 +501,7 @@ class LsqrOptimizer(Optimizer):
             # print('After:')
             #print('spcols:', len(spcols), 'elements')
             #print('  ', len(set(spcols)), 'unique')
-            Ncols = np.max(spcols) + 1
+            Ncols = len(U)
             logverb('Set Ncols=', Ncols)
 
         # b = chi
-- 
2.43.0


From 819dab2a4f3402d83dd5b51b414ba88ae8aa51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:54 +0000
Subject: [PATCH 27/78] fix: LsqrOptimizer steps and variances were wrong for
 shared parameters

Each copy of a shared parameter was scaled by its own column norm, so the
solution of the merged column was divided by different scales; variances
were looked up in the wrong entries.
---
 tractor/lsqr_optimizer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 43e6a84..f257ac6 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -395,8 +395,6 @@ class LsqrOptimizer(Optimizer):
         del nextrow
         Ncols = len(allderivs)
 
-        # FIXME -- shared_params should share colscales!
-
         colscales = np.zeros(Ncols)
         for col, param in enumerate(allderivs):
             for (deriv, img) in param:
@@ -461,12 +459,13 @@ class LsqrOptimizer(Optimizer):
         assert(len(sprows) == len(spcols))
         assert(len(sprows) == len(spvals))
 
+        if shared_params:
+            # Shared parameters are one column, so share one column scale.
+            colscales = np.bincount(paramindexmap, weights=colscales)[paramindexmap]
+
         if scales_only:
             return np.sqrt(colscales)
 
-        if variance:
-            var = colscales
-
         if scale_columns:
             colscales = np.sqrt(colscales)
             rr,cc,vv = [],[],[]
@@ -577,6 +576,10 @@ class LsqrOptimizer(Optimizer):
         A = csr_matrix((spvals, (sprows, spcols)), shape=(Nrows, Ncols))
         del spvals, sprows, spcols
 
+        if variance:
+            # Inverse-variance of each column
+            var = np.array(A.power(2).sum(axis=0)).ravel()
+
         if get_A_matrix:
             # FIXME -- this isn't much good without colscales...
             return A
@@ -638,6 +641,8 @@ class LsqrOptimizer(Optimizer):
             if shared_params:
                 # Unapply shared parameter map.
                 var = var[paramindexmap]
+            if scale_columns:
+                var = var * colscales**2
 
             return X, 1./np.array(var)
 
-- 
2.43.0


From 762bc9b77466c7b2590a09cd9bef5ce6f5e41a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 28/78] fix: Ceres optimization failed when a parameter does
 not affect every image

The Jacobian blocks of parameters with no derivative in an image were left
unset, and Ceres refused the evaluation, so nothing was optimized.
---
 tractor/ceres-tractor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index c036df9..09c585f 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -322,6 +322,10 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
         Py_XDECREF(allderivs);
         return false;
     }
+    // Parameters that do not affect this image have no entry in allderivs.
+    for (int iparam=0; iparam<_nparams; iparam++)
+        if (jacobians[iparam])
+            memset(jacobians[iparam], 0, _npix * sizeof(double));
     int n = (int)PyList_Size(allderivs);
     //printf("Got %i derivatives\n", n);
     for (int ideriv=0; ideriv<n; ideriv++) {
-- 
2.43.0


From 54a2482e808936557f57e29e4b48b22c9de31a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 29/78] fix: Ceres optimization with numeric derivatives
 skipped images

The loop over parameters reused the index of the loop over images.
---
 tractor/ceres.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index 219580c..e5a99f9 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -444,7 +444,7 @@ static PyObject* ceres_opt(PyObject* tractor,
                 (new NumericDiffImageCost(icf), ceres::TAKE_OWNERSHIP,
                  numeric_stepsize);
 #endif
-            for (i=0; i<nparams; i++)
+            for (int j=0; j<nparams; j++)
                 dyncost->AddParameterBlock(1);
             dyncost->SetNumResiduals(icf->nPix());
             cost = dyncost;
-- 
2.43.0


From 5e2a567cf35d2d535cac90fa9307aca170ee0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 30/78] fix: Ceres variances were left at zero when the dlnp
 criterion was reached

---
 tractor/ceres.i | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index e5a99f9..b72bf43 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -590,7 +590,9 @@ static PyObject* ceres_opt(PyObject* tractor,
     //printf("%s\n", summary.BriefReport().c_str());
     //printf("%s\n", summary.FullReport().c_str());
 
-    if (get_variance && (summary.termination_type == ceres::CONVERGENCE)) {
+    // (USER_SUCCESS: DlnpCallback ended the optimization)
+    if (get_variance && ((summary.termination_type == ceres::CONVERGENCE) ||
+                         (summary.termination_type == ceres::USER_SUCCESS))) {
         if (!PyArray_Check(py_variance)) {
             printf("ceres_opt: variance must be a numpy array\n");
             return NULL;
-- 
2.43.0


From 5be717814d064476ab7c473b0880d2309441f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 31/78] fix: Ceres forced photometry with nonneg=True always
 failed

ceres_forced_phot() returns a dictionary, not a status code.
---
 tractor/ceres_optimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 13a7b91..856344c 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -362,7 +362,6 @@ class CeresOptimizer(Optimizer):
         if nonneg:
             # Initial run with nonneg=False, to get in the ballpark
             x = ceres_forced_phot(blocks, fluxes, 0, iverbose, ithreads)
-            assert(x == 0)
             logverb('forced phot: ceres initial run', Time() - t0)
             t0 = Time()
             if negfluxval is not None:
-- 
2.43.0


From 64ce7b383a4faea75244b1f5f3f0cd1c5ccf20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 32/78] fix: Ceres forced photometry with sky=True built its
 model images from the wrong fluxes

The parameter vector begins with the sky levels.
---
 tractor/ceres_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 856344c..1a7f48d 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -335,7 +335,7 @@ class CeresOptimizer(Optimizer):
         if wantims0:
             t0 = Time()
             params = tractor.getParams()
-            result.ims0 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims0 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims0', Time() - t0)
 
@@ -380,7 +380,7 @@ class CeresOptimizer(Optimizer):
 
         if wantims1:
             t0 = Time()
-            result.ims1 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims1 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims1:', Time() - t0)
         return x
-- 
2.43.0


From 9bfec9513e23e0ce7ef77edfd2c99d7ff58b15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 33/78] fix: forced photometry with skyvariance=True always
 failed

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index ab58a65..11cd501 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -385,7 +385,7 @@ class Optimizer(object):
         IV = np.zeros(Nsky + Nsourceparams)
         # sky derivs first
         if sky and skyvariance:
-            for di, (dsky, tim) in enumerate(skyderivs):
+            for di, ((dsky, tim),) in enumerate(skyderivs):
                 ie = tim.getInvError()
                 if dsky.shape == tim.shape:
                     dchi2 = np.sum((dsky.patch * ie)**2)
-- 
2.43.0


From 02622b318becd5b1707a52275fae86c0f649a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 34/78] fix: forced photometry in regions of interest used the
 error map as the image

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 11cd501..7d79283 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -502,7 +502,7 @@ class Optimizer(object):
             im = img.getImage()
             if roi is not None:
                 ie = ie[roi]
-                im = ie[roi]
+                im = im[roi]
             chi = (im - mod) * ie
 
             # DEBUG
-- 
2.43.0


From d5251bcf0fdf9b278368d0e48904d2d84c084982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 35/78] fix: forced photometry set the sky from the last step
 tried, not the best one

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index f257ac6..11170d7 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -187,7 +187,7 @@ class LsqrOptimizer(Optimizer):
                 tractor.catalog.setParams(pa)
 
                 if sky:
-                    tractor.images.setParams([p + alpha * d for p, d
+                    tractor.images.setParams([p + alphaBest * d for p, d
                                               in zip(p0sky, Xsky)])
 
                 dlogprob = lnpBest - lnp0
-- 
2.43.0


From 3d71fe20eb653e7d3f3ca016c0de76ce4c71d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 36/78] fix: forced photometry fit statistics used the wrong
 sources when some are frozen

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 7d79283..741d1b8 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -293,7 +293,7 @@ class Optimizer(object):
         # for each source:
         for si, uis in enumerate(umodsforsource):
             # print 'fit stats for source', si, 'of', len(umodsforsource)
-            src = catalog[si]
+            src = srcs[si]
             # for each image
             for imi, (umods, scale, tim, (img, mod, ie, chi, roi)) in enumerate(
                     zip(umodels, scales, imlist, imsBest)):
-- 
2.43.0


From 531976cbc5ed458ae4bef79350f6759b3f9be37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 37/78] fix: CeresOptimizer.optimize failed when there is
 nothing to optimize

---
 tractor/ceres_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 1a7f48d..5946505 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -42,6 +42,9 @@ class CeresOptimizer(Optimizer):
     def optimize(self, tractor, variance=False, **kwargs):
         X = self._ceres_opt(tractor, variance=variance, **kwargs)
         #print('optimize:', X)
+        if X is None:
+            # No parameters to optimize
+            return (0., None, 0., None) if variance else (0., None, 0.)
         chisq0 = X['initial_cost']
         chisq1 = X['final_cost']
         if variance:
-- 
2.43.0


From ceea83207ac5b126785c9c441f3b99a78446b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 38/78] fix: Gaussian priors were applied to the wrong
 parameters when some are frozen

getGaussianPriors() numbered all parameters; its callers index the vector of
thawed ones.
---
 tractor/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 52f89c6..1eded8c 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -98,8 +98,13 @@ class _GaussianPriors(object):
             chisq += (p[i] - mu)**2 / sigma**2
         return -0.5 * chisq
 
-    def getGaussianPriors(self):
-        return [(i, mu, sigma) for name, i, mu, sigma in self.terms]
+    def getGaussianPriors(self, param=None):
+        if param is None:
+            param = self.param
+        # indices are in the vector of thawed parameters
+        terms = [(param.getLiquidIndexOfIndex(j), mu, sigma)
+                 for name, j, mu, sigma in self.terms]
+        return [(i, mu, sigma) for i, mu, sigma in terms if i != -1]
 
     def getDerivs(self, param=None):
         '''
@@ -163,7 +168,7 @@ class GaussianPriorsMixin(object):
         return self.gpriors.getDerivs(param=self)
 
     def getGaussianPriors(self):
-        return self.gpriors.getGaussianPriors()
+        return self.gpriors.getGaussianPriors(param=self)
 
     def isLegal(self):
         '''
-- 
2.43.0


From ca55e7e920a7570014c21aa3fdf2cfaa072be62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:08 +0000
Subject: [PATCH 39/78] fix: derivative of SoftenedFracDev was NaN for very
 negative values

---
 tractor/galaxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index d53366a..f1aea82 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -806,7 +806,8 @@ class SoftenedFracDev(FracDev):
     def derivative(self):
         f = self.getValue()
         # Thanks, Sage
-        ef = np.exp(-4. * f + 2)
+        # (symmetric about f=0.5; this form does not overflow)
+        ef = np.exp(-np.abs(4. * f - 2))
         return 4. * ef / ((ef + 1)**2)
 
 
-- 
2.43.0


From 7ec4916d9abe2d0887b4bfe7ce40dd70fc222ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 40/78] fix: forced photometry returned no images or fit
 statistics when no step improved the fit

---
 tractor/lsqr_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 11170d7..57b8a3e 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -83,6 +83,7 @@ class LsqrOptimizer(Optimizer):
                 #logverb('forced phot: initial lnp = ',
                 #        lnp0, 'took', Time() - t0)
                 assert(np.isfinite(lnp0))
+                imsBest = ims0
 
             if justims0:
                 result.lnp0 = lnp0
-- 
2.43.0


From 6ee985587b6162890d11f73e3aed1cdc7da14d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 41/78] fix: forced photometry fit statistics were wrong for
 models that start off the image

---
 tractor/optimize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 741d1b8..2633f9e 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -333,6 +333,10 @@ class Optimizer(object):
                 # Divide by total flux, not flux within this image; sum <= 1.
                 if xlo is None or xhi is None or ylo is None or yhi is None:
                     continue
+                # Trim to the image: models can start or end off the edge.
+                sh, sw = srcmod.shape
+                ylo, yhi = np.clip([ylo, yhi], 0, sh)
+                xlo, xhi = np.clip([xlo, xhi], 0, sw)
                 slc = slice(ylo, yhi), slice(xlo, xhi)
 
                 srcmod[slc] /= sourcecounts
-- 
2.43.0


From a5e0b43a40366134a40b47b5c5cfe8630b4491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:00 +0000
Subject: [PATCH 42/78] fix: forced photometry in regions of interest failed,
 or reported stale sky, when fitting the sky

---
 tractor/lsqr_optimizer.py | 10 ++++++----
 tractor/optimize.py       |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 57b8a3e..ff99e2f 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 from astrometry.util.ttime import Time
-from tractor.engine import logverb, isverbose, logmsg
+from tractor.engine import logverb, isverbose, logmsg, Images
 from tractor.optimize import Optimizer
 from tractor.utils import listmax
 
@@ -103,7 +103,8 @@ class LsqrOptimizer(Optimizer):
             # which image.  Temporarily set images = subimages
             if rois is not None:
                 realims = tractor.images
-                tractor.images = subimgs
+                tractor.images = Images(*subimgs)
+                tractor.images.liquid = list(realims.liquid)
 
             #logverb('forced phot: getting update with damp=', damping)
             #t0 = Time()
@@ -111,6 +112,9 @@ class LsqrOptimizer(Optimizer):
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            if rois is not None:
+                tractor.images = realims
+
             if X is None or len(X) == 0:
                 print('Error getting update direction')
                 break
@@ -118,8 +122,6 @@ class LsqrOptimizer(Optimizer):
             #topt = Time() - t0
             #logverb('forced phot: opt:', topt)
             #print('forced phot: update', X)
-            if rois is not None:
-                tractor.images = realims
 
             # tryUpdates():
             if alphas is None:
diff --git a/tractor/optimize.py b/tractor/optimize.py
index 2633f9e..de75804 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -76,6 +76,10 @@ class Optimizer(object):
                 y1 = roi[0].stop
                 x1 = roi[1].stop
                 subimg = img.subimage(x0, x1, y0, y1)
+                # The subimage stands in for the image: it has the
+                # same (position-independent) sky, the one that is fit.
+                subimg.sky = img.sky
+                subimg.liquid = list(img.liquid)
                 subimgs.append(subimg)
             imlist = subimgs
         else:
-- 
2.43.0


From 500bc407c0a768905b4cb7c5380952dcf8270eea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:41:54 +0000
Subject: [PATCH 43/78] fix: the smoothness prior of SplineSky joined the wrong
 neighbours and could not be used in fits

The spline coefficients are x-major, but were laid out as rows of H; and the
linearised prior ignored frozen parameters and did not follow the contract
(one column index per entry), so the least-squares optimizers failed on it.
---
 tractor/dense_optimizer.py         |  6 +--
 tractor/smarter_dense_optimizer.py |  6 +--
 tractor/splinesky.py               | 68 ++++++++++++------------------
 3 files changed, 34 insertions(+), 46 deletions(-)

diff --git a/tractor/dense_optimizer.py b/tractor/dense_optimizer.py
index 218d4da..e0841a3 100644
--- a/tractor/dense_optimizer.py
+++ b/tractor/dense_optimizer.py
@@ -153,12 +153,12 @@ class ConstrainedDenseOptimizer(ConstrainedOptimizer):
         if Npriors > 0:
             rA, cA, vA, pb, mub = priorVals
             #print('Priors: pb', pb, 'mub', mub)
-            for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+            B[Npixels:] = np.hstack(pb)
+            for ri,ci,vi in zip(rA, cA, vA):
                 if scale_columns:
                     colscales2[ci] += np.dot(vi, vi)
-                for rij,vij,bij in zip(ri, vi, bi):
+                for rij,vij in zip(ri, vi):
                     A[Npixels + rij, ci] = vij
-                    B[Npixels + rij] += bij
             del priorVals, rA, cA, vA, pb, mub
 
         if scale_columns:
diff --git a/tractor/smarter_dense_optimizer.py b/tractor/smarter_dense_optimizer.py
index 355e633..c1c6f8b 100644
--- a/tractor/smarter_dense_optimizer.py
+++ b/tractor/smarter_dense_optimizer.py
@@ -214,16 +214,16 @@ class SmarterDenseOptimizer(ConstrainedOptimizer):
 
         if Npriors > 0:
             rA, cA, vA, pb, _ = priorVals
-            for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+            B[Npixels:] = np.hstack(pb)
+            for ri,ci,vi in zip(rA, cA, vA):
                 col = column_map[ci]
                 #print('Prior in col', ci, '->', col)
                 assert(col >= 0)
                 if scale_columns:
                     # (note, np.dot works when vi is a list)
                     colscales[col] += np.dot(vi, vi)
-                for rij,vij,bij in zip(ri, vi, bi):
+                for rij,vij in zip(ri, vi):
                     A[Npixels + rij, col] = vij
-                    B[Npixels + rij] += bij
             del priorVals, rA, cA, vA, pb
 
         if scale_columns:
diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 22166a9..db30c90 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -137,7 +137,8 @@ class SplineSky(ParamList, ducks.ImageCalibration):
     def getParamGrid(self):
         arr = np.array(self.vals)
         assert(len(arr) == (self.W * self.H))
-        arr = arr.reshape(self.H, -1)
+        # the spline coefficients are in x-major order
+        arr = arr.reshape(self.W, self.H).T
         return arr
 
     def getLogPrior(self):
@@ -150,8 +151,6 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         return lnP
 
     def getLogPriorDerivatives(self):
-        # FIXME -- we ignore frozenness!
-
         if self.prior_smooth_sigma is None:
             return None
 
@@ -160,47 +159,36 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         vA = []
         pb = []
         mub = []
-        # columns are parameters
+        # columns are (thawed) parameters
         # rows are prior terms
-
-        #
+        cols = np.empty(len(self.vals), int)
+        cols[:] = -1
+        thawed = list(self.getThawedParamIndices())
+        cols[thawed] = np.arange(len(thawed))
+        # "p" is the parameter grid, and "cols" the column for each one
         p = self.getParamGrid()
+        cols = cols.reshape(self.W, self.H).T
         sig = self.prior_smooth_sigma
-        # print 'Param grid', p.shape
-        # print 'len', len(p)
-        II = np.arange(len(p.ravel())).reshape(p.shape)
-        assert(p.shape == II.shape)
-
-        dx = p[:, 1:] - p[:, :-1]
-        dy = p[1:, :] - p[:-1, :]
-
-        NX = len(dx.ravel())
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, :-1].ravel())
-        vA.append(np.ones(NX) / sig)
-        pb.append(dx.ravel() / sig)
-        # Not 100% certain of this...
-        mub.append(np.zeros(NX))
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, 1:].ravel())
-        vA.append(-np.ones(NX) / sig)
-
-        NY = len(dy.ravel())
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[:-1, :].ravel())
-        vA.append(np.ones(NY) / sig)
-        pb.append(dy.ravel() / sig)
-        mub.append(np.zeros(NY))
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[1:, :].ravel())
-        vA.append(-np.ones(NY) / sig)
-
-        # print 'log prior chi: returning', len(rA), 'sets of terms'
 
+        # Each pair of neighbors in x, then in y, is a term
+        #   (p1 - p0) / sig
+        row = 0
+        for c0, c1, p0, p1 in [(cols[:, :-1], cols[:, 1:], p[:, :-1], p[:, 1:]),
+                               (cols[:-1, :], cols[1:, :], p[:-1, :], p[1:, :])]:
+            for k0, k1, v0, v1 in zip(c0.ravel(), c1.ravel(), p0.ravel(), p1.ravel()):
+                terms = [(k, s / sig) for k, s in [(k0, 1.), (k1, -1.)] if k >= 0]
+                if len(terms) == 0:
+                    continue
+                for k, v in terms:
+                    rA.append([row])
+                    cA.append(k)
+                    vA.append([v])
+                pb.append([(v1 - v0) / sig])
+                mub.append([0.])
+                row += 1
+
+        if row == 0:
+            return None
         return (rA, cA, vA, pb, mub)
 
     def getParamDerivatives(self, *args):
-- 
2.43.0


From 314f519dd286dfb20fcbbdfb498e7b5e7db8bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:54 +0000
Subject: [PATCH 44/78] fix: SplineSky.BlantonMethod failed when no mask was
 given

---
 tractor/splinesky.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index db30c90..cda2d36 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -42,6 +42,8 @@ class SplineSky(ParamList, ducks.ImageCalibration):
                 im = image[ylo:yhi, xlo:xhi]
                 if mask is not None:
                     msk = mask[ylo:yhi, xlo:xhi]
+                else:
+                    msk = None
                 g = estimator(im, msk, **kwargs)
                 assert(np.isfinite(g))
                 grid[iy, ix] = g
-- 
2.43.0


From a1801853e35f479f99ee94f64daac3cd07370b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:54 +0000
Subject: [PATCH 45/78] fix: copying a SplineSky dropped its smoothness prior

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index cda2d36..89e04f3 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -87,6 +87,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         c = type(self)(self.xgrid, self.ygrid, self.get_grid(), order=self.order)
         c.x0 = self.x0
         c.y0 = self.y0
+        c.prior_smooth_sigma = self.prior_smooth_sigma
         # ParamList
         c.liquid = [l for l in self.liquid]
         return c
-- 
2.43.0


From 3048ec890b4af6df8ab768463311a25576e9ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:54 +0000
Subject: [PATCH 46/78] fix: SplineSky tables truncated fractional grid
 positions and offsets to integers

---
 tractor/splinesky.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 89e04f3..cd50e11 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -216,10 +216,14 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         T.skyclass = np.array([sky_type])
         T.gridw = np.atleast_1d(self.W).astype(np.int32)
         T.gridh = np.atleast_1d(self.H).astype(np.int32)
-        T.xgrid = np.atleast_2d(self.xgrid).astype(np.int32)
-        T.ygrid = np.atleast_2d(self.ygrid).astype(np.int32)
-        T.x0 = np.atleast_1d(self.x0).astype(np.int32)
-        T.y0 = np.atleast_1d(self.y0).astype(np.int32)
+        def toint(x):
+            # integers, if that does not move the grid
+            i = x.astype(np.int32)
+            return i if np.all(i == x) else x
+        T.xgrid = toint(np.atleast_2d(self.xgrid))
+        T.ygrid = toint(np.atleast_2d(self.ygrid))
+        T.x0 = toint(np.atleast_1d(self.x0))
+        T.y0 = toint(np.atleast_1d(self.y0))
         gridvals = self.get_grid()
         T.gridvals = np.array([gridvals]).astype(np.float32)
         T.order = np.atleast_1d(self.order).astype(np.uint8)
-- 
2.43.0


From a83fe462578b56598a99033c721e31e5a8fb0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 47/78] fix: a pickled Tractor lost its model_kwargs and could
 not be used

---
 tractor/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 5083070..92fda22 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -161,10 +161,11 @@ class Tractor(MultiParams):
         version = 1
         S = (version, self.getImages(), self.getCatalog(), self.liquid,
              self.modtype, self.modelMasks, self.expectModelMasks,
-             self.optimizer)
+             self.optimizer, self.model_kwargs)
         return S
 
     def __setstate__(self, state):
+        self.model_kwargs = {}
         if len(state) == 6:
             # "backwards compat"
             (images, catalog, self.liquid, self.modtype, self.modelMasks,
@@ -174,6 +175,9 @@ class Tractor(MultiParams):
         elif len(state) == 8:
             (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
              self.expectModelMasks, self.optimizer) = state
+        elif len(state) == 9:
+            (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
+             self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
     def getNImages(self):
-- 
2.43.0


From cb0dd2f45d70f5450c233bebaa664a423e4f525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 48/78] fix: copying an Image thawed its frozen calibrations
 and dropped its approximation level

---
 tractor/image.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tractor/image.py b/tractor/image.py
index 970aeb7..827b21e 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -70,14 +70,17 @@ class Image(MultiParams):
         time = self.time
         if self.time is not None:
             time = time.copy()
-        return self.__class__(data=self.data.copy(),
-                              inverr=self.inverr.copy(),
-                              wcs=self.wcs.copy(),
-                              psf=self.psf.copy(),
-                              sky=self.sky.copy(),
-                              photocal=self.photocal.copy(),
-                              name=self.name,
-                              time=time)
+        c = self.__class__(data=self.data.copy(),
+                           inverr=self.inverr.copy(),
+                           wcs=self.wcs.copy(),
+                           psf=self.psf.copy(),
+                           sky=self.sky.copy(),
+                           photocal=self.photocal.copy(),
+                           name=self.name,
+                           time=time, zr=self.zr)
+        c.modelMinval = self.modelMinval
+        c.liquid = [l for l in self.liquid]
+        return c
 
     def subimage(self, x0, x1, y0, y1):
         slc = (slice(y0, y1), slice(x0, x1))
-- 
2.43.0


From 3c0e7b41a8f35ec8333ebe1af7e3d79739e2c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 49/78] fix: copies of PSF models lost frozen components,
 sampling or patch radius

---
 tractor/psf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index cbfa768..7a14aad 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -118,7 +118,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return ('PixelizedPSF', tuple(self.img.ravel()))
 
     def copy(self):
-        return self.__class__(self.img.copy())
+        return self.__class__(self.img.copy(), sampling=self.sampling,
+                              Lorder=self.Lorder)
 
     def getShifted(self, x0, y0):
         # not spatially varying
@@ -391,6 +392,11 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         K = self.mog.K
         self.stepsizes = [0.01] * K + [0.01] * (K * 2) + [0.1] * (K * 3)
 
+    def copy(self):
+        c = super(GaussianMixturePSF, self).copy()
+        c.radius = self.radius
+        return c
+
     def getShifted(self, x0, y0):
         # not spatially varying
         return self
@@ -872,8 +878,11 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         return hk
 
     def copy(self):
-        return NCircularGaussianPSF(list([s for s in self.sigmas]),
-                                    list([w for w in self.weights]))
+        c = NCircularGaussianPSF(list(self.mysigmas), list(self.myweights))
+        c.sigmas.liquid = [l for l in self.sigmas.liquid]
+        c.weights.liquid = [l for l in self.weights.liquid]
+        c.liquid = [l for l in self.liquid]
+        return c
 
     def applyTo(self, image):
         from scipy.ndimage.filters import gaussian_filter
-- 
2.43.0


From 4a51a09b0cd2b85debe6f232b65cdfe35a678fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 50/78] fix: copies of brightnesses and magnitude calibrations
 forgot what was frozen

---
 tractor/brightness.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 50c536e..2c8a8d7 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -65,7 +65,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
                                    for i, k in enumerate(self.order)))
 
     def copy(self):
-        return self * 1.
+        c = self * 1.
+        c.liquid = [l for l in self.liquid]
+        return c
 
     def getBand(self, band):
         return getattr(self, band)
@@ -284,7 +286,10 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         ParamList.__init__(self, zeropoint)
 
     def copy(self):
-        return MagsPhotoCal(self.band, self.zp)
+        c = self.__class__(self.band, self.zp)
+        c.maxmag = self.maxmag
+        c.liquid = [l for l in self.liquid]
+        return c
 
     @staticmethod
     def getNamedParams():
-- 
2.43.0


From 04dc54a93ae11d92d1af0bd91bcc9ad69be32382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 51/78] fix: copying a SersicGalaxy forgot what was frozen

---
 tractor/sersic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 7a4873c..1abf550 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -388,10 +388,6 @@ class SersicGalaxy(HoggGalaxy):
     def getProfile(self):
         return SersicMixture.getProfile(self.sersicindex.val)
 
-    def copy(self):
-        return SersicGalaxy(self.pos.copy(), self.brightness.copy(),
-                            self.shape.copy(), self.sersicindex.copy())
-
     def _getUnitFluxDeps(self, img, px, py):
         return hash(('unitpatch', self.getName(), px, py,
                      img.getWcs().hashkey(),
-- 
2.43.0


From caca89bc102ae2e9b2544b9fe5338ed5507ba99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 52/78] fix: copying a galaxy dropped the patch size set on it

---
 tractor/devcore.py |  5 +++++
 tractor/galaxy.py  | 25 +++++++++++++++++++++++++
 tractor/sercore.py |  5 +++++
 3 files changed, 35 insertions(+)

diff --git a/tractor/devcore.py b/tractor/devcore.py
index 8ef4a72..ef3e04b 100644
--- a/tractor/devcore.py
+++ b/tractor/devcore.py
@@ -13,6 +13,11 @@ class DevCoreGalaxy(MultiParams, BasicSource):
         MultiParams.__init__(self, pos, brightnessDev, shapeDev, brightnessPsf)
         self.name = self.getName()
 
+    def copy(self):
+        c = super().copy()
+        copyPatchSize(self, c)
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightnessDev=1, shapeDev=2, brightnessPsf=3)
diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index f1aea82..1b42cc2 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -89,6 +89,16 @@ class GalaxyShape(ParamList):
         return re_deg * np.array([[cp, sp * self.ab], [-sp, cp * self.ab]])
 
 
+def copyPatchSize(gal, copy):
+    '''
+    Copies the (optional) attributes that set the size of the patch in
+    which a galaxy is rendered.
+    '''
+    for key in ['halfsize', 'nre']:
+        if key in gal.__dict__:
+            setattr(copy, key, getattr(gal, key))
+
+
 class Galaxy(MultiParams, SingleProfileSource):
     '''
     Generic Galaxy profile with position, brightness, and shape.
@@ -99,6 +109,11 @@ class Galaxy(MultiParams, SingleProfileSource):
         self.name = self.getName()
         self.dname = self.getDName()
 
+    def copy(self):
+        c = super().copy()
+        copyPatchSize(self, c)
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightness=1, shape=2)
@@ -835,6 +850,11 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
                              shapeExp, shapeDev)
         self.name = self.getName()
 
+    def copy(self):
+        c = super().copy()
+        copyPatchSize(self, c)
+        return c
+
     def getRadius(self):
         return max(self.shapeExp.re * ExpGalaxy.nre,
                    self.shapeDev.re * DevGalaxy.nre)
@@ -1061,6 +1081,11 @@ class CompositeGalaxy(MultiParams, BasicSource):
                              brightnessDev, shapeDev)
         self.name = self.getName()
 
+    def copy(self):
+        c = super().copy()
+        copyPatchSize(self, c)
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightnessExp=1, shapeExp=2,
diff --git a/tractor/sercore.py b/tractor/sercore.py
index edd228f..81fcf5b 100644
--- a/tractor/sercore.py
+++ b/tractor/sercore.py
@@ -14,6 +14,11 @@ class SersicCoreGalaxy(MultiParams, BasicSource):
         MultiParams.__init__(self, pos, brightness, shape, sersicindex, brightnessPsf)
         self.name = self.getName()
 
+    def copy(self):
+        c = super().copy()
+        copyPatchSize(self, c)
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightness=1, shape=2, sersicindex=3, brightnessPsf=4)
-- 
2.43.0


From 6264e8c4266e21912b602aec309a25e1d9112b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:53 +0000
Subject: [PATCH 53/78] fix: a copy of a MixtureOfGaussians shared its arrays
 with the original

---
 tractor/mixture_profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index c1a7079..7bece28 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -99,7 +99,8 @@ class MixtureOfGaussians(object):
             assert(np.linalg.det(thisvar) >= 0.)
 
     def copy(self):
-        return MixtureOfGaussians(self.amp, self.mean, self.var, quick=True)
+        return MixtureOfGaussians(self.amp.copy(), self.mean.copy(),
+                                  self.var.copy(), quick=True)
 
     def normalize(self):
         self.amp /= np.sum(self.amp)
-- 
2.43.0


From 2398aaddb46b9b5fe284e9445548d67e4da37b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:25 +0000
Subject: [PATCH 54/78] fix: in-place Lanczos shifts of small or very large
 images did nothing

The fallback used for images up to 8 or beyond 4096 pixels ignored
inplace=True, so galaxies rendered in such a box were not shifted to
their sub-pixel position.
---
 tractor/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index 7a14aad..75c9aa1 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -46,6 +46,8 @@ def lanczos_shift_image(img, dx, dy, inplace=False, force_python=False):
         Ly /= Ly.sum()
         sx     = correlate1d(img, Lx, axis=1, mode='constant')
         outimg = correlate1d(sx,  Ly, axis=0, mode='constant')
+        if inplace:
+            img[:,:] = outimg
         return outimg
 
     outimg = np.empty(img.shape, np.float32)
-- 
2.43.0


From a63acc3d83c53d7b5c26be069adfe9dcaa721780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:57 +0000
Subject: [PATCH 55/78] fix: oversampled PSF models were wrong inside model
 masks

Inside a model mask, normalized oversampled PSFs were normalized over the
mask rather than over the PSF, and pixels of the mask beyond the PSF image
were filled with its edge values.
---
 tractor/psf.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 75c9aa1..563840f 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -322,17 +322,16 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         dx = px - ix
         dy = py - iy
 
-        if modelMask is not None:
-            mh, mw = modelMask.shape
-            mx0, my0 = modelMask.x0, modelMask.y0
-            xl,yl,native_img = self._sampleImage(img, dx, dy, xlo=mx0-ix, ylo=my0-iy,
-                                                 width=mw, height=mh)
-            return Patch(xl+ix, yl+iy, native_img)
-
         xl,yl,img = self._sampleImage(img, dx, dy)
         x0 = ix + xl
         y0 = iy + yl
 
+        if modelMask is not None:
+            mx0, my0 = modelMask.x0, modelMask.y0
+            mm = np.zeros(modelMask.shape, np.float32)
+            Patch(x0 - mx0, y0 - my0, img).addTo(mm)
+            return Patch(mx0, my0, mm)
+
         if radius is not None:
             R = int(np.ceil(radius))
             H,W = img.shape
-- 
2.43.0


From bc3fb7d516ff4b1bd4579d1924523f4f9e395fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 56/78] fix: Lanczos shifts by less than 1e-162 pixels gave NaN

The square of such a shift underflows to zero in the interpolation kernel.
---
 tractor/psf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index 563840f..17bd42b 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -32,6 +32,12 @@ def lanczos_shift_image(img, dx, dy, inplace=False, force_python=False):
             print('tractor.psf: failed to import C version of mp_fourier library.  Falling back to python version.')
             mp_fourier = None
 
+    # Shifts whose squares underflow would yield 0/0 in the kernel
+    if dx * dx == 0:
+        dx = 0.
+    if dy * dy == 0:
+        dy = 0.
+
     H,W = img.shape
     if (mp_fourier is None or force_python or W <= 8 or H <= 8
         or H > work_corr7f.shape[0] or W > work_corr7f.shape[1]):
-- 
2.43.0


From 14852b8052cdc126afcc335d341e94b46e16737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 57/78] fix: Fourier transforms of an oversampled varying PSF
 ignored its variation

---
 tractor/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 17bd42b..c57fb9d 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -360,7 +360,7 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         # shift by fractional pixel
         dx = px - int(px)
         dy = py - int(py)
-        _, _, img = self._sampleImage(None, dx, dy)
+        _, _, img = self._sampleImage(self.getImage(px, py), dx, dy)
         pad, cx, cy = self._padInImage(sz, sz, img=img)
         cx += dx
         cy += dy
-- 
2.43.0


From fddc4fa5ee232d2e5c2b10e90128ece5890d404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 58/78] fix: shifting a PixelizedPsfEx in place kept stale
 Fourier transforms

---
 tractor/psfex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6d58f1e..dfb0f0d 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -465,6 +465,8 @@ class PixelizedPsfEx(PixelizedPSF):
         None
         '''
         self.psfex.shift(dx, dy)
+        # oversampled transforms are cached by position
+        self.clear_cache()
 
     def constantPsfAt(self, x, y):
         pix = self.psfex.at(x, y)
-- 
2.43.0


From a44376cc143665d9d6d104601e938f4071ca57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 59/78] fix: a shifted PSF could not be used with model masks,
 clipped extents or in sub-sub-images

---
 tractor/shifted.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 266fa8c..074206c 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -76,21 +76,32 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
     def hashkey(self):
         return ('ShiftedPsf', self.x0, self.y0) + self.psf.hashkey()
 
+    def getShifted(self, x0, y0):
+        return ShiftedPsf(self.psf, self.x0 + x0, self.y0 + y0)
+
     def getPointSourcePatch(self, px, py, extent=None, derivs=False,
-                            modelMask=None, **kwargs):
+                            modelMask=None, clipExtent=None, **kwargs):
         if extent is not None:
             (ex0, ex1, ey0, ey1) = extent
-            extent = (ex0 + self.x0, ex1 + self.x0,
-                      ey0 + self.y0, ey1 + self.y0)
+            kwargs.update(extent=(ex0 + self.x0, ex1 + self.x0,
+                                  ey0 + self.y0, ey1 + self.y0))
+        if clipExtent is not None:
+            (ex0, ex1, ey0, ey1) = clipExtent
+            clipExtent = (ex0 + self.x0, ex1 + self.x0,
+                          ey0 + self.y0, ey1 + self.y0)
         mm = None
         if modelMask is not None:
-            from .patch import Patch
-            mm = Patch(modelMask.x0 + self.x0, modelMask.y0 +
-                       self.y0, modelMask.patch)
+            from .patch import ModelMask
+            if modelMask.mask is None:
+                args = (modelMask.w, modelMask.h)
+            else:
+                args = (modelMask.mask,)
+            mm = ModelMask(modelMask.x0 + self.x0, modelMask.y0 + self.y0, *args)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
-                                         extent=extent, derivs=derivs,
-                                         modelMask=mm, **kwargs)
+                                         derivs=derivs,
+                                         modelMask=mm, clipExtent=clipExtent,
+                                         **kwargs)
         # Now we have to shift the patch back too
         if p is None:
             return None
-- 
2.43.0


From 3563ab0bc70baf6850a29a5f244712b113266f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:59 +0000
Subject: [PATCH 60/78] fix: PsfEx models could not be read back from the files
 they write

---
 tractor/psfex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index dfb0f0d..8b70fc2 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from tractor.utils import MultiParams, getClassName
-from tractor.psf import GaussianMixturePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
+from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -572,7 +572,7 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
         T = T[0]
         t = hdr['PSFEX_T'].strip()
         # print 'Type:', t
-        assert(t == 'tractor.psfex.PsfEx')
+        assert(t in ['tractor.psfex.PsfEx', typestring(PsfEx)])
         psft = hdr['PSF_TYPE']
         knowntypes = dict([(typestring(x), x)
                            for x in [GaussianMixturePSF,
@@ -610,6 +610,7 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
                 pp[:, :, i] = pi
 
         psfex.splinedata = (pp, T.xx, T.yy)
+        psfex.ensureSplines()
         return psfex
 
     def toFits(self, fn, data=None, hdr=None,
-- 
2.43.0


From 7074b1d08fbbd276047170ce196b6e57e246fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:59 +0000
Subject: [PATCH 61/78] fix: a copied or shifted PsfExModel lost its FWHM and
 could not be saved

---
 tractor/psfex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 8b70fc2..84c3ba4 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -276,8 +276,8 @@ class PsfExModel(object):
     def shifted(self, dx, dy):
         copy = self.__class__()
         for key in ['sampling', 'psfbases', 'xscale', 'yscale', 'degree', 'radius',
-                    'x0', 'y0']:
-            setattr(copy, key, getattr(self, key))
+                    'x0', 'y0', 'fwhm']:
+            setattr(copy, key, getattr(self, key, None))
         copy.shift(dx, dy)
         return copy
 
-- 
2.43.0


From e5aa2586711271a60117f8aed16f75c74cd3c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:59 +0000
Subject: [PATCH 62/78] fix: a CachingPsfEx made from a PsfEx had no radius and
 no PSF model

---
 tractor/psfex.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 84c3ba4..e2a1fb5 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -700,9 +700,10 @@ class CachingPsfEx(PsfEx):
         c = CachingPsfEx(None, psfex.W, psfex.H, nx=psfex.nx, ny=psfex.ny,
                          scale=psfex.scale, K=psfex.K,
                          psfClass=psfex.psfclass, **kwargs)
-        for k in ['sampling', 'xscale', 'yscale', 'x0', 'y0', 'degree', 'radius',
-                  'psfbases', 'splinedata', 'splines']:
-            setattr(c, k, getattr(psfex, k, None))
+        for k in ['psfex', 'sampling', 'xscale', 'yscale', 'x0', 'y0', 'degree',
+                  'radius', 'psfbases', 'splinedata', 'splines']:
+            if hasattr(psfex, k):
+                setattr(c, k, getattr(psfex, k))
         return c
 
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 90c3d92c471828507109041e6d2d332bdd68bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:41 +0000
Subject: [PATCH 63/78] fix: NullCache had no length; Cache evicted items when
 replacing one

---
 tractor/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index a35c60d..7af0e5c 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -101,6 +101,8 @@ class Cache(object):
         e.val = val
         e.size = sz
         e.hits = 0
+        # replacing an item makes room for itself (and counts as a use)
+        self.dict.pop(key, None)
         # purge LRU item
         if len(self.dict) >= self.maxsize:
             self.dict.popitem(0)
@@ -223,4 +225,4 @@ class NullCache(object):
         return 0
 
     def __len__(self):
-        return len(self.dict)
+        return 0
-- 
2.43.0


From 172475cb008e81d3dff1ef82218a9e87e04e60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 64/78] fix: the caching Tractor ignored model masks

---
 tractor/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index 7af0e5c..320ad85 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -20,9 +20,13 @@ class TractorCacheMixin(object):
     def getModelPatch(self, img, src, minsb=None, **kwargs):
         if self.cache is None:
             return super(TractorCacheMixin, self).getModelPatch(
-                img, src, **kwargs)
+                img, src, minsb=minsb, **kwargs)
 
-        deps = (img.hashkey(), src.hashkey())
+        mask = self._getModelMaskFor(img, src)
+        if mask is not None:
+            mask = (mask.x0, mask.y0, mask.w, mask.h,
+                    None if mask.mask is None else mask.mask.tobytes())
+        deps = (img.hashkey(), src.hashkey(), mask, self.expectModelMasks)
         deps = hash(deps)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
-- 
2.43.0


From dc15738561ae2b0b9c8f384d9506eb71243a3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:59 +0000
Subject: [PATCH 65/78] fix: MovingPointSource can be copied, and honours its
 epoch and patch radii

MovingPointSource skipped PointSource.__init__, so it lacked fixedRadius and
minRadius and copy() raised AttributeError; a copy also wrapped the Parallax
in another Parallax and forgot the epoch.
---
 tractor/motion.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tractor/motion.py b/tractor/motion.py
index cbdcac0..63151b9 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -60,10 +60,18 @@ class MovingPointSource(PointSource):
         # Assume types...
         assert(type(pos) is RaDecPos)
         assert(type(pm) is PMRaDec)
-        super(PointSource, self).__init__(pos, brightness, pm,
-                                          Parallax(parallax))
+        if not isinstance(parallax, Parallax):
+            parallax = Parallax(parallax)
+        super(PointSource, self).__init__(pos, brightness, pm, parallax)
+        self.fixedRadius = None
+        self.minRadius = None
         self.epoch = epoch
 
+    def copy(self):
+        c = super(MovingPointSource, self).copy()
+        c.epoch = self.epoch
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightness=1, pm=2, parallax=3)
@@ -119,7 +127,8 @@ class MovingPointSource(PointSource):
         pos = self.getPositionAtTime(img.getTime())
         (px, py) = img.getWcs().positionToPixel(pos)
         patch = img.getPsf().getPointSourcePatch(
-            px, py, minval=minval, modelMask=modelMask, **kwargs)
+            px, py, minval=minval, radius=self.fixedRadius,
+            minradius=self.minRadius, modelMask=modelMask, **kwargs)
         return patch
 
     def getParamDerivatives(self, img, modelMask=None, **kwargs):
-- 
2.43.0


From d0a83ae94db13e0ab80b8cc8f4c3aba62b5daf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 66/78] fix: no write outside the array for an empty window of
 Gaussians

A point source just off the image, with a circular-Gaussian PSF, was clipped to
an empty window, for which c_gauss_2d_approx3 wrote to memory before the
(zero-size) result array.
---
 tractor/approx3.c | 7 +++++++
 tractor/psf.py    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index 9f4f2cd..28bf422 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -56,6 +56,13 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
         printf("get_np failed\n");
         goto bailout;
     }
+    if (W <= 0 || H <= 0) {
+        // nothing to evaluate
+        *sx0 = *sy0 = 0;
+        *sx1 = *sy1 = -1;
+        rtn = 0;
+        goto bailout;
+    }
 
     amp    = PyArray_DATA(np_amp);
     mean   = PyArray_DATA(np_mean);
diff --git a/tractor/psf.py b/tractor/psf.py
index c57fb9d..9c95eb9 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -933,6 +933,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             x1 = min(x1, xh)
             y0 = max(y0, yl)
             y1 = min(y1, yh)
+            if x0 >= x1 or y0 >= y1:
+                return None
         # UGH - API question -- is the getMixtureOfGaussians() result read-only?
         mix = self.getMixtureOfGaussians()
         oldmean = mix.mean
-- 
2.43.0


From 6bc5eee5c2058d7b2a6939de358f1255f8da9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:51 +0000
Subject: [PATCH 67/78] fix: evaluate_grid_approx of an empty window aborted
 the process

c_gauss_2d_approx2 looks for a starting pixel inside the window, and asserts
that it found one.
---
 tractor/mix.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/mix.i b/tractor/mix.i
index 35698d8..e65a201 100644
--- a/tractor/mix.i
+++ b/tractor/mix.i
@@ -680,6 +680,11 @@ static int c_gauss_2d_approx2(int x0, int x1, int y0, int y1,
     if (get_np(ob_amp, ob_mean, ob_var, ob_result, Py_None, Py_None, Py_None, W, H,
                &K, &np_amp, &np_mean, &np_var, &np_result, NULL, NULL, NULL, NULL))
         goto bailout;
+    if (W <= 0 || H <= 0) {
+        // nothing to evaluate
+        rtn = 0;
+        goto bailout;
+    }
 
     amp = PyArray_DATA(np_amp);
     mean = PyArray_DATA(np_mean);
-- 
2.43.0


From 433ec262230cf024e071ecb5250d4be8ec936b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:40 +0000
Subject: [PATCH 68/78] fix: fitting Gaussians to a PSF image from a starting
 guess

GaussianMixturePSF.fromStamp could not take the list of parameters that
VaryingGaussianPSF (whose default class it is) passes as the guess for the next
place, so that fitting a varying PSF always failed; and it overwrote the
arrays of the caller's guess with the result.
---
 tractor/psf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 9c95eb9..e86a0eb 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -557,12 +557,17 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         mu has shape (N,2)
         var (variance) has shape (N,2,2)
 
+        or P0 = (list of floats), parameters of a GaussianMixturePSF
+
         optional xy0 = int x0,y0 origin of stamp.
         '''
         from tractor.emfit import em_fit_2d_reg
         from tractor.fitpsf import em_init_params
         if P0 is not None:
-            w, mu, var = P0
+            if len(P0) != 3:
+                P0 = GaussianMixturePSF(*P0).get_wmuvar()
+            # (the fit updates these arrays)
+            w, mu, var = [np.array(p, dtype=float) for p in P0]
         else:
             w, mu, var = em_init_params(N, None, None, None)
         stamp = stamp.copy()
-- 
2.43.0


From b7d19bd48f0e6453e07c3786e4ff2bf8c070caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:58 +0000
Subject: [PATCH 69/78] fix: composite sources honour a request for an exact
 model (minsb=0)

---
 tractor/devcore.py | 6 +++---
 tractor/galaxy.py  | 6 +++---
 tractor/sercore.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tractor/devcore.py b/tractor/devcore.py
index ef3e04b..e27f803 100644
--- a/tractor/devcore.py
+++ b/tractor/devcore.py
@@ -43,10 +43,10 @@ class DevCoreGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightnessDev, self.brightnessPsf]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None):
+    def _getModelPatches(self, img, minsb=None, modelMask=None):
         d = DevGalaxy(self.pos, self.brightnessDev, self.shapeDev)
         p = PointSource(self.pos, self.brightnessPsf)
-        if minsb == 0. or minsb is None:
+        if minsb is None:
             kw = {}
         else:
             kw = dict(minsb=minsb / 2.)
@@ -56,7 +56,7 @@ class DevCoreGalaxy(MultiParams, BasicSource):
         pp = p.getModelPatch(img, modelMask=modelMask, **kw)
         return (pd, pp)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None):
+    def getModelPatch(self, img, minsb=None, modelMask=None):
         pd, pp = self._getModelPatches(img, minsb=minsb, modelMask=modelMask)
         return add_patches(pd, pp)
 
diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 1b42cc2..91e7c6a 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -1117,11 +1117,11 @@ class CompositeGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightnessExp, self.brightnessDev]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None, **kwargs):
+    def _getModelPatches(self, img, minsb=None, modelMask=None, **kwargs):
         e = ExpGalaxy(self.pos, self.brightnessExp, self.shapeExp)
         d = DevGalaxy(self.pos, self.brightnessDev, self.shapeDev)
         kw = kwargs.copy()
-        if minsb:
+        if minsb is not None:
             kw.update(minsb=minsb / 2.)
         if hasattr(self, 'halfsize'):
             e.halfsize = d.halfsize = self.halfsize
@@ -1129,7 +1129,7 @@ class CompositeGalaxy(MultiParams, BasicSource):
         pd = d.getModelPatch(img, modelMask=modelMask, **kw)
         return (pe, pd)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None, **kwargs):
+    def getModelPatch(self, img, minsb=None, modelMask=None, **kwargs):
         pe, pd = self._getModelPatches(img, minsb=minsb, modelMask=modelMask,
                                        **kwargs)
         return add_patches(pe, pd)
diff --git a/tractor/sercore.py b/tractor/sercore.py
index 81fcf5b..f20c433 100644
--- a/tractor/sercore.py
+++ b/tractor/sercore.py
@@ -46,10 +46,10 @@ class SersicCoreGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightness, self.brightnessPsf]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None):
+    def _getModelPatches(self, img, minsb=None, modelMask=None):
         s = SersicGalaxy(self.pos, self.brightness, self.shape, self.sersicindex)
         p = PointSource(self.pos, self.brightnessPsf)
-        if minsb == 0. or minsb is None:
+        if minsb is None:
             kw = {}
         else:
             kw = dict(minsb=minsb / 2.)
@@ -59,7 +59,7 @@ class SersicCoreGalaxy(MultiParams, BasicSource):
         pp = p.getModelPatch(img, modelMask=modelMask, **kw)
         return (ps, pp)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None):
+    def getModelPatch(self, img, minsb=None, modelMask=None):
         ps, pp = self._getModelPatches(img, minsb=minsb, modelMask=modelMask)
         return add_patches(ps, pp)
 
-- 
2.43.0


From 64545fd090205c58f5ba6b0961fbc4463fc008c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:42 +0000
Subject: [PATCH 70/78] fix: GPU optimizer: flux derivatives include the
 photometric scale

The columns of the least-squares matrix for fluxes and surface brightnesses
assumed a LinearPhotoCal scale of 1, so in images with another calibration
the update was wrong by that factor.
---
 tractor/gpu_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 4248206..030d73d 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -706,7 +706,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + tim_band_index[i]
-                A[i * pH*pW: (i+1) * pH*pW, col] = (G[i, 0, :, :] * padie[i, :, :]).ravel()
+                A[i * pH*pW: (i+1) * pH*pW, col] = (
+                    (G[i, 0, :, :] * padie[i, :, :]).ravel() * tims[i].getPhotoCal().getScale())
             # We *could* form the *col* into an array and do this as a
             # one-liner; not sure that would be faster.
 
@@ -733,8 +734,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its sb flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + Nbands + Nshapes + tim_band_index[i]
-                # FIXME -- here we must be assuming LinearPhotoCal with scale = 1!
-                A[i * pH*pW: (i+1) * pH*pW, col] = (pixscales[i]**2 * padie[i, :, :].ravel())
+                A[i * pH*pW: (i+1) * pH*pW, col] = (pixscales[i]**2 * padie[i, :, :].ravel() *
+                                                    tims[i].getPhotoCal().getScale())
 
         if sb and src:
             # add current surface brightnesses to the model
-- 
2.43.0


From bcd0d762709d762efbd9db60b32178956a1d2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:42 +0000
Subject: [PATCH 71/78] fix: GPU optimizer: position derivatives are with
 respect to RA, not RA * cos(Dec)

Like WCS.pixelDerivsToPositionDerivs: the CD matrix is in terms of
dRA * cos(Dec), while the parameter is RA.
---
 tractor/gpu_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 030d73d..a7893da 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -690,6 +690,11 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             dx[:, 1:-1, 1:-1] = (G[:, 0, 1:-1,  :-2] - G[:, 0, 1:-1, 2:  ]) / 2.
             dy[:, 1:-1, 1:-1] = (G[:, 0,  :-2, 1:-1] - G[:, 0, 2:,   1:-1]) / 2.
 
+            img_cdi = np.array(img_cdi)
+            for i,pname in src.pos.getThawedParamIndicesAndNames():
+                if pname == 'ra':
+                    # the CD matrix is in terms of dRA * cos(Dec); the parameter is RA.
+                    img_cdi[:, :, i] *= np.cos(np.deg2rad(src.pos.dec))
             cdi = cp.array(img_cdi)
             assert(cdi.shape == (Nimages,2,2))
 
-- 
2.43.0


From be410a43e4e8b7cc71255a75fd7c0c937f73daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:42 +0000
Subject: [PATCH 72/78] fix: GPU optimizer: report hitting the limits when no
 step is possible

The list of steps always contains the null step, so it is never empty; when
the parameter limits allow no step at all, hit_limit was not reported, unlike
in ConstrainedOptimizer.tryUpdates.
---
 tractor/gpu_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index a7893da..9dc3bf7 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -214,7 +214,9 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         # FIXME -- check_step??
         # Get lists of alpha values and parameters to try
         steps = [(0., p0, False, False)] + self.getParameterSteps(tr, X, alphas)
-        if len(steps) == 0:
+        if len(steps) == 1:
+            # only the null step
+            self.stepLimited = True
             self.last_step_hit_limit = True
             self.hit_limit = True
             return 0., 0.
-- 
2.43.0


From a5c04a7f0e9fda8f3d28badad447b9f76fabd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:42 +0000
Subject: [PATCH 73/78] fix: GPU optimizer: priors on parameters that no image
 constrains

A prior on, eg, the flux in a band for which there is no image raised a
KeyError.  Give such parameters a column of the matrix, as the other
optimizers do.
---
 tractor/gpu_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 9dc3bf7..0c822ac 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -666,6 +666,12 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             if priorVals is not None:
                 rA, cA, vA, pb, mub = priorVals
                 Npriors = max(Npriors, max([1+max(r) for r in rA]))
+                # Parameters with priors but without derivatives
+                for ci in cA:
+                    if ci not in src_to_fit_param:
+                        src_to_fit_param[ci] = Nderivs
+                        fit_to_src_param[Nderivs] = ci
+                        Nderivs += 1
 
         Nrows = Npix_total + Npriors
         Ncols = Nderivs
@@ -756,9 +762,9 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         if Npriors > 0:
             rA, cA, vA, pb, mub = priorVals
             for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+                # Map the source's parameter index to our local fitting parameter index
+                ci = src_to_fit_param[ci]
                 for rij,vij,bij in zip(ri, vi, bi):
-                    # Map the source's parameter index to our local fitting parameter index
-                    ci = src_to_fit_param[ci]
                     A[Npix_total + rij, ci] = vij
                     B[Npix_total + rij] += bij
             del priorVals, rA, cA, vA, pb, mub
-- 
2.43.0


From 23e155c66452936c4887a639049b554b76941668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:52 +0000
Subject: [PATCH 74/78] fix: model cache: look models up by their full key, not
 its hash

Different keys can share a hash -- in Python hash(-1) == hash(-2) -- in
which case the cached model of another parameter value was returned.
---
 tractor/cache.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index 320ad85..075a795 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -27,7 +27,6 @@ class TractorCacheMixin(object):
             mask = (mask.x0, mask.y0, mask.w, mask.h,
                     None if mask.mask is None else mask.mask.tobytes())
         deps = (img.hashkey(), src.hashkey(), mask, self.expectModelMasks)
-        deps = hash(deps)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
             minsb = img.modelMinval
-- 
2.43.0


From 1883943891f98a3b3fb1b790d202190b9f9c8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:52 +0000
Subject: [PATCH 75/78] fix: photometric calibrations: include the band in the
 hash key

With the model cache, replacing an image's calibration by one of a
different band returned the models of the old band.
---
 tractor/brightness.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 2c8a8d7..d8c4ada 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -258,6 +258,9 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
     def copy(self):
         return FluxesPhotoCal(self.band)
 
+    def hashkey(self):
+        return super(FluxesPhotoCal, self).hashkey() + (self.band,)
+
     def brightnessToCounts(self, brightness):
         flux = brightness.getFlux(self.band)
         return flux
@@ -291,6 +294,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         c.liquid = [l for l in self.liquid]
         return c
 
+    def hashkey(self):
+        return super(MagsPhotoCal, self).hashkey() + (self.band, self.maxmag)
+
     @staticmethod
     def getNamedParams():
         return dict(zp=0)
@@ -346,6 +352,9 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
     def copy(self):
         return self.__class__(self.getValue(), band=self.band)
 
+    def hashkey(self):
+        return super(LinearPhotoCal, self).hashkey() + (self.band,)
+
     def getScale(self):
         return self.val
 
-- 
2.43.0


From 834c4a48ef19cfa6c0b752fd15b0ef66023f1fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:56 +0000
Subject: [PATCH 76/78] fix: MultiParams copes with missing (None) components
 in copies, freeze reports and step sizes

---
 tractor/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 1eded8c..e9576e5 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -949,7 +949,8 @@ class MultiParams(BaseParams, NamedParams):
         super(MultiParams, self).__init__()
 
     def copy(self):
-        x = self.__class__(*[s.copy() for s in self.subs])
+        x = self.__class__(*[None if s is None else s.copy()
+                             for s in self.subs])
         x.liquid = [l for l in self.liquid]
         return x
 
@@ -1108,6 +1109,8 @@ class MultiParams(BaseParams, NamedParams):
             if pre is None:
                 pre = 'param%i' % i
             n.append((pre, liquid, True))
+            if s is None:
+                continue
             if hasattr(s, 'getParamStateRecursive'):
                 snames = s.getParamStateRecursive()
             else:
@@ -1233,6 +1236,8 @@ class MultiParams(BaseParams, NamedParams):
     def getAllStepSizes(self, *args, **kwargs):
         p = []
         for s in self.subs:
+            if s is None:
+                continue
             p.extend(s.getAllStepSizes(*args, **kwargs))
         return p
 
@@ -1246,6 +1251,8 @@ class MultiParams(BaseParams, NamedParams):
     def setAllStepSizes(self, ss):
         off = 0
         for sub in self.subs:
+            if sub is None:
+                continue
             n = len(sub.getAllParams())
             sub.setAllStepSizes(ss[off: off + n])
             off += n
-- 
2.43.0


From 0d9eb52b9b73ba46d29367b7da8a58a4aee5634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:56 +0000
Subject: [PATCH 77/78] fix: Gaussian priors on mixture parameters count in the
 log-prior, not only in its derivatives

---
 tractor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index e9576e5..a6c9ff4 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1370,7 +1370,7 @@ class MogParams(ParamList):
         if np.any(np.logical_or(self.mog.var[:, 0, 0] < 0.,
                                 self.mog.var[:, 1, 1] < 0.)):
             return -np.inf
-        return 0.
+        return self.getGaussianLogPrior()
 
     def _set_param_names(self, K):
         # ordering: A0, A1, ... Ak, mux0, muy0, mux1, muy1, mux2, muy2, ...
-- 
2.43.0


From 3a0332e83497d4be3e434662da340ca0c5655528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:15 +0000
Subject: [PATCH 78/78] fix: c_gauss_2d_approx3: returned slice must cover
 every evaluated pixel

The slice bounds were only updated in x from the left/right sides of the
growing ring and in y from the top/bottom, so for tilted, elongated
Gaussians evaluated pixels well above minval were sliced off.
---
 tractor/approx3.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index 28bf422..a041d3c 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -301,6 +301,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                     //result[(yy - y0)*W + (xx - x0)] = r;
                     rrow[i] = r;
                     //printf("top[xx=%i] = %g\n", xx, r);
+                    *sx0 = MIN(*sx0, i);
+                    *sx1 = MAX(*sx1, i);
 
                     // If we're inside the minradius, mark the next pixels as game
                     //printf("r=%g vs minval %g; R=%i vs minradius %i\n", r, minval, R, minradius);
@@ -352,6 +354,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                     //result[(yy - y0)*W + (xx - x0)] = r;
                     rrow[i] = r;
                     //printf("bottom[xx=%i] = %g\n", xx, r);
+                    *sx0 = MIN(*sx0, i);
+                    *sx1 = MAX(*sx1, i);
                     //printf("r=%g vs minval %g; R=%i vs minradius %i\n", r, minval, R, minradius);
                     if ((R > minradius) && (r < minval))
                         continue;
@@ -397,6 +401,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                                      (yderiv ? yderiv+off : NULL), maxD);
                     result[off] = r;
                     //printf("left[yy=%i] = %g\n", xx, r);
+                    *sy0 = MIN(*sy0, i);
+                    *sy1 = MAX(*sy1, i);
                     //printf("r=%g vs minval %g; R=%i vs minradius %i\n", r, minval, R, minradius);
                     if ((R > minradius) && (r < minval))
                         continue;
@@ -429,6 +435,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                                      (yderiv ? yderiv+off : NULL), maxD);
                     result[off] = r;
                     //printf("right[yy=%i] = %g\n", yy, r);
+                    *sy0 = MIN(*sy0, i);
+                    *sy1 = MAX(*sy1, i);
                     //printf("r=%g vs minval %g; R=%i vs minradius %i\n", r, minval, R, minradius);
                     if ((R > minradius) && (r < minval))
                         continue;
-- 
2.43.0

