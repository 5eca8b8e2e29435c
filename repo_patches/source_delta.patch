From b10df9ba1b6e0162f0060350c3fa27d5357aa859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:07 +0000
Subject: [PATCH 001/110] fix: setStepSizes with frozen parameters indexed the
 thawed step list by raw index

---
 tractor/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2a30fa3..4e3d35e 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -453,8 +453,10 @@ class NamedParams(object):
                     newss.append(1.)
             self.stepsizes = newss
         else:
-            for i, s in self._enumerateLiquidArray(ss):
-                self.stepsizes[i] = s
+            newss = list(self.stepsizes)
+            for i, j in self._indexBoth():
+                newss[j] = ss[i]
+            self.stepsizes = newss
 
     def setAllStepSizes(self, ss):
         self.stepsizes = ss
-- 
2.43.0


From 7e0f3592a9388dde2b0af9814ab40392a2d3ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 002/110] fix: bounds and max-step lists of mixture-of-Gaussian
 and array params had length zero

---
 tractor/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 4e3d35e..b142af5 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -716,9 +716,10 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
 
     def __init__(self, *args):
         self.vals = list(args)
-        self.lowers = [None for v in self.vals]
-        self.uppers = [None for v in self.vals]
-        self.maxstep = [None for v in self.vals]
+        n = self._numberOfThings()
+        self.lowers = [None] * n
+        self.uppers = [None] * n
+        self.maxstep = [None] * n
         super(ParamList, self).__init__()
 
     def copy(self):
@@ -1282,7 +1283,11 @@ class NpArrayParams(ParamList):
         del self.vals
         # from NamedParams...
         # active/inactive
-        self.liquid = [True] * self._numberOfThings()
+        n = self._numberOfThings()
+        self.liquid = [True] * n
+        self.lowers = [None] * n
+        self.uppers = [None] * n
+        self.maxstep = [None] * n
 
     def __getattr__(self, name):
         if name == 'vals':
-- 
2.43.0


From 68ece92a0874ce4d0bcf502e25a4103accc50a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 003/110] fix: MagsPhotoCal reported a step size for a frozen
 zeropoint

---
 tractor/brightness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 63f7237..f574f6f 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -285,7 +285,7 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def getNamedParams():
         return dict(zp=0)
 
-    def getStepSizes(self, *args, **kwargs):
+    def getAllStepSizes(self, *args, **kwargs):
         return [0.01]
 
     def brightnessToCounts(self, brightness):
-- 
2.43.0


From 7afecf652a7326e8842704b81befdcf7e13d2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 004/110] fix: EllipseESoft.getAllStepSizes raised KeyError

---
 tractor/ellipses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index f6810af..a5bd77d 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -222,8 +222,9 @@ class EllipseESoft(EllipseE):
         ee2 = ee * math.sin(angle)
         return (math.log(r), ee1, ee2)
 
-    # def getAllStepSizes(self, *args, **kwargs):
-    #    return [0.01] * 3
+    # The superclass looks at e1,e2, which this class does not have.
+    def getAllStepSizes(self, *args, **kwargs):
+        return [0.01] * 3
 
     def __repr__(self):
         return 'log r_e=%.3f, ee1=%.3f, ee2=%.3f' % (self.logre, self.ee1, self.ee2)
-- 
2.43.0


From 6ff5a50a4b52d53d9ac33b67414ab16628f671de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 005/110] fix: calibration wrappers dropped the bounds and
 priors of the wrapped params

---
 tractor/shifted.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 8613ba4..a480c8a 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -59,6 +59,18 @@ class ParamsWrapper(BaseParams):
     def getStepSizes(self, *args, **kwargs):
         return self.real.getStepSizes(*args, **kwargs)
 
+    def getLowerBounds(self):
+        return self.real.getLowerBounds()
+
+    def getUpperBounds(self):
+        return self.real.getUpperBounds()
+
+    def getMaxStep(self):
+        return self.real.getMaxStep()
+
+    def getGaussianPriors(self):
+        return self.real.getGaussianPriors()
+
 
 class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
     def __init__(self, psf, x0, y0):
-- 
2.43.0


From 1ccaa2cd99bc7cfb89a091d8beb81defd9540080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 006/110] fix: setStepSizes replaced the default step sizes of
 frozen parameters by 1

---
 tractor/utils.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index b142af5..e32e732 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -442,21 +442,13 @@ class NamedParams(object):
         return [1.] * len(self.getAllParams())
 
     def setStepSizes(self, ss):
-        if not hasattr(self, 'stepsizes'):
-            newss = []
-            j = 0
-            for i, ll in enumerate(self.liquid):
-                if ll:
-                    newss.append(ss[j])
-                    j += 1
-                else:
-                    newss.append(1.)
-            self.stepsizes = newss
-        else:
-            newss = list(self.stepsizes)
-            for i, j in self._indexBoth():
-                newss[j] = ss[i]
-            self.stepsizes = newss
+        newss = getattr(self, 'stepsizes', None)
+        if newss is None:
+            newss = self.getAllStepSizes()
+        newss = list(newss)
+        for i, j in self._indexBoth():
+            newss[j] = ss[i]
+        self.stepsizes = newss
 
     def setAllStepSizes(self, ss):
         self.stepsizes = ss
-- 
2.43.0


From e6599cab1c3724702d061f6808ac223094bebc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 007/110] fix: copying a multi-band brightness lost the frozen
 state of its bands

---
 tractor/brightness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index f574f6f..cf26a81 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -60,7 +60,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
                                    for i, k in enumerate(self.order)))
 
     def copy(self):
-        return self * 1.
+        cop = self * 1.
+        cop.liquid = [l for l in self.liquid]
+        return cop
 
     def getBand(self, band):
         return getattr(self, band)
-- 
2.43.0


From f4ea521c64f10e44877c18aec405fe4f0821ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 008/110] fix: copying a Sersic galaxy lost its frozen state

---
 tractor/sersic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 33263c5..276962a 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -388,10 +388,6 @@ class SersicGalaxy(HoggGalaxy):
     def getProfile(self):
         return SersicMixture.getProfile(self.sersicindex.val)
 
-    def copy(self):
-        return SersicGalaxy(self.pos.copy(), self.brightness.copy(),
-                            self.shape.copy(), self.sersicindex.copy())
-
     def _getUnitFluxDeps(self, img, px, py):
         return hash(('unitpatch', self.getName(), px, py,
                      img.getWcs().hashkey(),
-- 
2.43.0


From 0674bc05b0728832246936f08961b3730b25fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 009/110] fix: copying a PixelizedPSF lost its sampling

---
 tractor/psf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 033a2da..d430e50 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -118,7 +118,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return ('PixelizedPSF', tuple(self.img.ravel()))
 
     def copy(self):
-        return self.__class__(self.img.copy())
+        return self.__class__(self.img.copy(), sampling=self.sampling,
+                              Lorder=self.Lorder)
 
     def getShifted(self, x0, y0):
         # not spatially varying
-- 
2.43.0


From 1c2c8f310f0bd33f8ff440da6eb51050ba60ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 010/110] fix: copying a MagsPhotoCal lost its frozen state

---
 tractor/brightness.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index cf26a81..0a28154 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -281,7 +281,10 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         ParamList.__init__(self, zeropoint)
 
     def copy(self):
-        return MagsPhotoCal(self.band, self.zp)
+        cop = MagsPhotoCal(self.band, self.zp)
+        cop.maxmag = self.maxmag
+        cop.liquid = [l for l in self.liquid]
+        return cop
 
     @staticmethod
     def getNamedParams():
-- 
2.43.0


From ab8dcd93ca19ba64c5559492fedfcb1983156055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 011/110] fix: copy and hashkey of NCircularGaussianPSF dropped
 frozen components

---
 tractor/psf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index d430e50..c9a943e 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -869,12 +869,19 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         return getCircularMog(amps, sigs)
 
     def hashkey(self):
-        hk = ('NCircularGaussianPSF', tuple(self.sigmas), tuple(self.weights))
+        hk = ('NCircularGaussianPSF', tuple(self.mysigmas),
+              tuple(self.myweights))
         return hk
 
     def copy(self):
-        return NCircularGaussianPSF(list([s for s in self.sigmas]),
-                                    list([w for w in self.weights]))
+        cop = NCircularGaussianPSF(list(self.mysigmas), list(self.myweights))
+        cop.liquid = [l for l in self.liquid]
+        cop.sigmas.liquid = [l for l in self.sigmas.liquid]
+        cop.weights.liquid = [l for l in self.weights.liquid]
+        cop.minradius = self.minradius
+        if hasattr(self, 'radius'):
+            cop.radius = self.radius
+        return cop
 
     def applyTo(self, image):
         from scipy.ndimage.filters import gaussian_filter
-- 
2.43.0


From 5e658ebd123b3b998426e1d4d8f973b1dbff0f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 012/110] fix: copying a NullWCS lost its offset and pixel
 scale, and its hashkey ignored the scale

---
 tractor/wcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 36ca902..56c3d22 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -20,7 +20,10 @@ class NullWCS(BaseParams, ducks.WCS):
         self.setPixscale(pixscale)
 
     def hashkey(self):
-        return ('NullWCS', self.dx, self.dy)
+        return ('NullWCS', self.dx, self.dy, self.pixscale)
+
+    def copy(self):
+        return self.__class__(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
 
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
-- 
2.43.0


From 6be1d051dc9b7bcf7bce7a14f26158b742981e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 013/110] fix: copying an Image lost its frozen state and
 rendering threshold

---
 tractor/image.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tractor/image.py b/tractor/image.py
index 970aeb7..cb3a183 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -70,14 +70,18 @@ class Image(MultiParams):
         time = self.time
         if self.time is not None:
             time = time.copy()
-        return self.__class__(data=self.data.copy(),
-                              inverr=self.inverr.copy(),
-                              wcs=self.wcs.copy(),
-                              psf=self.psf.copy(),
-                              sky=self.sky.copy(),
-                              photocal=self.photocal.copy(),
-                              name=self.name,
-                              time=time)
+        cop = self.__class__(data=self.data.copy(),
+                             inverr=self.inverr.copy(),
+                             wcs=self.wcs.copy(),
+                             psf=self.psf.copy(),
+                             sky=self.sky.copy(),
+                             photocal=self.photocal.copy(),
+                             name=self.name,
+                             time=time,
+                             zr=self.zr)
+        cop.modelMinval = self.modelMinval
+        cop.liquid = [l for l in self.liquid]
+        return cop
 
     def subimage(self, x0, x1, y0, y1):
         slc = (slice(y0, y1), slice(x0, x1))
-- 
2.43.0


From 76732a59bc7b1e4681cbe8287001259b89a7615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 014/110] fix: MixtureOfGaussians.copy shared its arrays with
 the original

---
 tractor/mixture_profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index e8f9dd2..c2d8faa 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -99,7 +99,8 @@ class MixtureOfGaussians(object):
             assert(np.linalg.det(thisvar) >= 0.)
 
     def copy(self):
-        return MixtureOfGaussians(self.amp, self.mean, self.var, quick=True)
+        return MixtureOfGaussians(self.amp.copy(), self.mean.copy(),
+                                  self.var.copy(), quick=True)
 
     def normalize(self):
         self.amp /= np.sum(self.amp)
-- 
2.43.0


From 6e662471155427fffadd41e2d872905f6212e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 015/110] fix: copying a SplineSky lost its smoothness prior

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 22166a9..1131e1b 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -85,6 +85,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         c = type(self)(self.xgrid, self.ygrid, self.get_grid(), order=self.order)
         c.x0 = self.x0
         c.y0 = self.y0
+        c.prior_smooth_sigma = self.prior_smooth_sigma
         # ParamList
         c.liquid = [l for l in self.liquid]
         return c
-- 
2.43.0


From c70c8f3566790940debf8e7e08ef8fa957d787f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 016/110] fix: NpArrayParams.copy raised TypeError

---
 tractor/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/utils.py b/tractor/utils.py
index e32e732..c58e0a8 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1281,6 +1281,11 @@ class NpArrayParams(ParamList):
         self.uppers = [None] * n
         self.maxstep = [None] * n
 
+    def copy(self):
+        cop = self.__class__(self.a)
+        cop.liquid = [l for l in self.liquid]
+        return cop
+
     def __getattr__(self, name):
         if name == 'vals':
             return self.a.ravel()
-- 
2.43.0


From db7b4633d5fd7f27fb68fdab92b857a044f23e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 017/110] fix: copying a GaussianMixturePSF lost its radius

---
 tractor/psf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index c9a943e..4768278 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -402,6 +402,11 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
     def mogAt(self, x, y):
         return self
 
+    def copy(self):
+        cop = super(GaussianMixturePSF, self).copy()
+        cop.radius = self.radius
+        return cop
+
     def get_wmuvar(self):
         return (self.mog.amp, self.mog.mean, self.mog.var)
 
-- 
2.43.0


From b845ccb889e4e357d6356dbee0ae4cd5296b2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:48 +0000
Subject: [PATCH 018/110] fix: an unpickled Tractor had no model_kwargs and
 could not render

---
 tractor/engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 5083070..5ba878b 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -158,13 +158,14 @@ class Tractor(MultiParams):
 
     # For pickling
     def __getstate__(self):
-        version = 1
+        version = 2
         S = (version, self.getImages(), self.getCatalog(), self.liquid,
              self.modtype, self.modelMasks, self.expectModelMasks,
-             self.optimizer)
+             self.optimizer, self.model_kwargs)
         return S
 
     def __setstate__(self, state):
+        self.model_kwargs = {}
         if len(state) == 6:
             # "backwards compat"
             (images, catalog, self.liquid, self.modtype, self.modelMasks,
@@ -174,6 +175,9 @@ class Tractor(MultiParams):
         elif len(state) == 8:
             (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
              self.expectModelMasks, self.optimizer) = state
+        elif len(state) == 9:
+            (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
+             self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
     def getNImages(self):
-- 
2.43.0


From e7923a7a68d5cf9503f78dca127afbfae1c91e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:40 +0000
Subject: [PATCH 019/110] fix: copying a MovingPointSource raised
 AttributeError

---
 tractor/motion.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index cbdcac0..51fc6ba 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -63,6 +63,19 @@ class MovingPointSource(PointSource):
         super(PointSource, self).__init__(pos, brightness, pm,
                                           Parallax(parallax))
         self.epoch = epoch
+        # see PointSource
+        self.fixedRadius = None
+        self.minRadius = None
+
+    def copy(self):
+        c = self.__class__(self.pos.copy(), self.brightness.copy(),
+                           self.pm.copy(), self.parallax.getValue(),
+                           epoch=self.epoch)
+        c.parallax = self.parallax.copy()
+        c.liquid = self.liquid[:]
+        c.fixedRadius = self.fixedRadius
+        c.minRadius = self.minRadius
+        return c
 
     @staticmethod
     def getNamedParams():
-- 
2.43.0


From da328057e9c2bbd7e55cefe51e436e71f357d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 020/110] fix: NullWCS.shifted ignored the shift, misplacing
 sources in subimages

---
 tractor/wcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 56c3d22..4615585 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -49,7 +49,8 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.pixscale
 
     def shifted(self, x, y):
-        return self.copy()
+        return self.__class__(pixscale=self.pixscale, dx=self.dx - x,
+                              dy=self.dy - y)
 
 
 class WcslibWcs(BaseParams, ducks.ImageCalibration):
-- 
2.43.0


From 8619ba385123994bfec0e71978a79eff1f973af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 021/110] fix: NullWCS.pixelToPosition returned a bare tuple
 instead of a position

---
 tractor/wcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 4615585..9e127e0 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -34,7 +34,7 @@ class NullWCS(BaseParams, ducks.WCS):
         return pos.x + self.dx, pos.y + self.dy
 
     def pixelToPosition(self, x, y, src=None):
-        return x - self.dx, y - self.dy
+        return PixPos(x - self.dx, y - self.dy)
 
     def cdAtPixel(self, x, y):
         return self.cd
-- 
2.43.0


From 4571b83c693ac78d5a4428f2f2af10dca0b9c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 022/110] fix: TanWcs could not be constructed under python 3

---
 tractor/wcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 9e127e0..8222005 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -296,7 +296,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         self.x0 = 0
         self.y0 = 0
 
-        if isinstance(wcs, basestring):
+        if isinstance(wcs, str):
             from astrometry.util.util import Tan
             wcs = Tan(wcs, hdu)
 
-- 
2.43.0


From 650200e2eea96c5bf99d23d9fd62b7788f7ca367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 023/110] fix: copying a TanWcs lost its frozen state

---
 tractor/wcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 8222005..aeb5eec 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -308,6 +308,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         from astrometry.util.util import Tan
         wcs = self.__class__(Tan(self.wcs))
         wcs.setX0Y0(self.x0, self.y0)
+        wcs.liquid = [l for l in self.liquid]
         return wcs
 
     def shifted(self, dx, dy):
-- 
2.43.0


From b29274512689b4dd704d871fe6c581d6625cc4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 024/110] fix: TanWcs kept reporting its initial CD matrix
 after its CD parameters changed

---
 tractor/wcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index aeb5eec..beb46b1 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -333,6 +333,9 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
             cd = list(w.get_cd())
             cd[i - 4] = val
             w.set_cd(*cd)
+            self.cd = np.array([[cd[0], cd[1]], [cd[2], cd[3]]])
+            self.cd_inverse = np.linalg.inv(self.cd)
+            self.pixscale = w.pixel_scale()
         elif i == 8:
             self.x0 = val
         elif i == 9:
-- 
2.43.0


From c7058f62ebae412ff8cc3a8219cf4f1b90112030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 025/110] fix: ShiftedPsf raised AttributeError when rendering
 with a model mask

---
 tractor/shifted.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index a480c8a..7d92c3e 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -96,9 +96,13 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
                       ey0 + self.y0, ey1 + self.y0)
         mm = None
         if modelMask is not None:
-            from .patch import Patch
-            mm = Patch(modelMask.x0 + self.x0, modelMask.y0 +
-                       self.y0, modelMask.patch)
+            from .patch import ModelMask
+            if modelMask.mask is None:
+                mm = ModelMask(modelMask.x0 + self.x0, modelMask.y0 + self.y0,
+                               modelMask.w, modelMask.h)
+            else:
+                mm = ModelMask(modelMask.x0 + self.x0, modelMask.y0 + self.y0,
+                               modelMask.mask)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
                                          extent=extent, derivs=derivs,
-- 
2.43.0


From bc920c373053c17e1cf2c39c9265d972913af724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 026/110] fix: ScaledWcs.cdAtPixel evaluated the CD matrix at
 the wrong y

---
 tractor/shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 7d92c3e..4e69bdb 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -157,7 +157,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
         return ('ScaledWcs', self.factor) + tuple(self.wcs.hashkey())
 
     def cdAtPixel(self, x, y):
-        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) * self.factor - 0.5
+        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) / self.factor - 0.5
         cd = self.wcs.cdAtPixel(x, y)
         return cd / self.factor
 
-- 
2.43.0


From 2d2b3e9a7c8a50bbae4f3cbb6bfcf4b3c627dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 027/110] fix: SplineSky.BlantonMethod raised without a mask

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 1131e1b..dce3df4 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -40,6 +40,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
             for ix, x in enumerate(xgrid):
                 xlo, xhi = int(max(0, x - halfbox)), int(min(W, x + halfbox))
                 im = image[ylo:yhi, xlo:xhi]
+                msk = None
                 if mask is not None:
                     msk = mask[ylo:yhi, xlo:xhi]
                 g = estimator(im, msk, **kwargs)
-- 
2.43.0


From 152cd7b4d3f3b242277299fa7ecd91c78a74754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 028/110] fix: SplineSky smoothness prior paired the wrong
 coefficients on non-square grids

---
 tractor/splinesky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index dce3df4..9ed6452 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -139,7 +139,8 @@ class SplineSky(ParamList, ducks.ImageCalibration):
     def getParamGrid(self):
         arr = np.array(self.vals)
         assert(len(arr) == (self.W * self.H))
-        arr = arr.reshape(self.H, -1)
+        # the spline coefficients are ordered with y varying fastest
+        arr = arr.reshape(self.W, -1)
         return arr
 
     def getLogPrior(self):
-- 
2.43.0


From 9a89bf99b22a3e594c743c8651dc4be43be7219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 029/110] fix: Patch.hasNonzeroOverlapWith missed overlaps with
 negative pixels

---
 tractor/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/patch.py b/tractor/patch.py
index 4e5e120..98f9983 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -183,7 +183,7 @@ class Patch(object):
         sub = self.patch[iy, ix]
         osub = other.patch[oy, ox]
         assert(sub.shape == osub.shape)
-        return np.sum(sub * osub) > 0.
+        return bool(np.any((sub != 0) * (osub != 0)))
 
     def getNonZeroMask(self):
         nz = (self.patch != 0)
-- 
2.43.0


From fbe494105afbcb8949313e470d21ccdfd0982098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 030/110] fix: Patch.clipTo reported success for a patch wholly
 left of or below the image

---
 tractor/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 98f9983..b27a682 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -248,6 +248,9 @@ class Patch(object):
         if self.y0 >= H:
             self.patch = None
             return False
+        if self.x1 <= 0 or self.y1 <= 0:
+            self.patch = None
+            return False
         # debug
         #o0 = (self.x0, self.y0, self.patch.shape)
         if self.x0 < 0:
-- 
2.43.0


From ec5bfbeb7949bf69bf5cb3058276c194cc8044e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 031/110] fix: adding or subtracting an empty Patch raised

---
 tractor/patch.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index b27a682..956e9a2 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -419,6 +419,14 @@ class Patch(object):
             op = getattr(pcopy, opname)
             return Patch(self.x0, self.y0, op(other.patch))
 
+        # A patch without an image is zero everywhere
+        if other.patch is None:
+            return self.copy()
+        if self.patch is None:
+            zero = Patch(other.x0, other.y0,
+                         np.zeros(other.shape, dtype=otype))
+            return zero.performArithmetic(other, opname, otype=otype)
+
         (ph, pw) = self.patch.shape
         (ox0, oy0) = other.getX0(), other.getY0()
         (oh, ow) = other.shape
-- 
2.43.0


From 0cabe67f0b3556f3faa01a35eb41d38f6f021bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 032/110] fix: dividing a Patch raised TypeError under python 3

---
 tractor/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 956e9a2..80bfa6b 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -406,6 +406,9 @@ class Patch(object):
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch / f)
 
+    __truediv__ = __div__
+    __itruediv__ = __idiv__
+
     def performArithmetic(self, other, opname, otype=float):
         assert(isinstance(other, Patch))
         if (self.x0 == other.getX0() and self.y0 == other.getY0() and
-- 
2.43.0


From 630627522896062408a72b9dc679d73632c1acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 033/110] fix: number minus params had the wrong sign, and
 dividing params raised under python 3

---
 tractor/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index c58e0a8..f88ac2f 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -909,10 +909,21 @@ class ArithmeticParams(object):
             self.setAllParams([x / other for x in self.getAllParams()])
         return self
 
+    def __rsub__(self, other):
+        res = self.copy()
+        res.setAllParams([other - x for x in res.getAllParams()])
+        return res
+
+    def __rdiv__(self, other):
+        res = self.copy()
+        res.setAllParams([other / x for x in res.getAllParams()])
+        return res
+
     __radd__ = __add__
-    __rsub__ = __sub__
     __rmul__ = __mul__
-    __rdiv__ = __div__
+    __truediv__ = __div__
+    __itruediv__ = __idiv__
+    __rtruediv__ = __rdiv__
 
 
 class MultiParams(BaseParams, NamedParams):
-- 
2.43.0


From f632f35c71f8b3c6e3929e8a410ce44550c32e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:19 +0000
Subject: [PATCH 034/110] fix: getDerivs raised TypeError with thawed images
 and model_kwargs

---
 tractor/engine.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 5ba878b..e3002fa 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -304,13 +304,10 @@ class Tractor(MultiParams):
 
         allsrcs = self.catalog
 
-        kw = self.model_kwargs.copy()
-        kw.update(kwargs)
-
         if not self.isParamFrozen('images'):
             for i in self.images.getThawedParamIndices():
                 img = self.images[i]
-                derivs = img.getParamDerivatives(self, allsrcs, **kw)
+                derivs = img.getParamDerivatives(self, allsrcs)
                 mod0 = None
                 for di, deriv in enumerate(derivs):
                     if deriv is False:
-- 
2.43.0


From 7a471123fbe6072d891334372d153792501e2bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 035/110] fix: pixel-position derivatives with NullWCS were too
 large by the CD matrix

---
 tractor/wcs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index beb46b1..b883318 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -45,6 +45,15 @@ class NullWCS(BaseParams, ducks.WCS):
     def cdInverseAtPosition(self, pos, src=None):
         return self.cd_inverse
 
+    def pixelDerivsToPositionDerivs(self, pos, src, counts0, patch0, patchdx, patchdy):
+        # Positions are already in pixels, so there is no CD matrix to apply.
+        derivs = []
+        for i,pname in pos.getThawedParamIndicesAndNames():
+            deriv = (patchdx, patchdy)[i] * counts0
+            deriv.setName('d(ptsrc)/d(pos.%s)' % pname)
+            derivs.append(deriv)
+        return derivs
+
     def pixscale_at(self, x, y):
         return self.pixscale
 
-- 
2.43.0


From fcfef1aa5ba6677cc7053cd6479df91fe2a39302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 036/110] fix: RA derivatives were too large by 1/cos(Dec)

---
 tractor/ducks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/ducks.py b/tractor/ducks.py
index 25f7b4e..ead6153 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -411,6 +411,7 @@ class WCS(ImageCalibration, Params):
         return self.cdInverseAtPixel(px, py)
 
     def pixelDerivsToPositionDerivs(self, pos, src, counts0, patch0, patchdx, patchdy):
+        import numpy as np
         # Convert x,y derivatives to Position derivatives
         cdi = self.cdInverseAtPosition(pos, src=src)
         # Get thawed Position parameter indices
@@ -418,6 +419,9 @@ class WCS(ImageCalibration, Params):
         for i,pname in pos.getThawedParamIndicesAndNames():
             deriv = (patchdx * cdi[0, i] +
                      patchdy * cdi[1, i]) * counts0
+            if pname == 'ra':
+                # the CD matrix is in units of dRA * cos(Dec)
+                deriv *= np.cos(np.deg2rad(pos.dec))
             deriv.setName('d(ptsrc)/d(pos.%s)' % pname)
             derivs.append(deriv)
         return derivs
-- 
2.43.0


From 2b16d02f6db79c8a57dee3c8c52fff557aec8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 037/110] fix: FixedCompositeGalaxy derivatives were misaligned
 with the brightness frozen

---
 tractor/galaxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 27117ac..3501a53 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -948,6 +948,9 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
         if self.isParamFrozen('pos'):
             e.freezeParam('pos')
             d.freezeParam('pos')
+        if self.isParamFrozen('brightness'):
+            e.freezeParam('brightness')
+            d.freezeParam('brightness')
         if self.isParamFrozen('shapeExp'):
             e.freezeParam('shape')
         if self.isParamFrozen('shapeDev'):
-- 
2.43.0


From a515d20c158878d6becb48728915e30fac441877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 038/110] fix: SersicGalaxy returned one derivative too many
 when outside the image

---
 tractor/sersic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 276962a..ffc33c3 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -404,7 +404,7 @@ class SersicGalaxy(HoggGalaxy):
         pos0 = self.getPosition()
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         if patch0 is None:
-            derivs.append(None)
+            # (already has one entry per parameter)
             return derivs
         counts = img.getPhotoCal().brightnessToCounts(self.brightness)
 
@@ -434,6 +434,7 @@ class SersicGalaxy(HoggGalaxy):
                     print('  stepped', step)
                     print('  to', self.sersicindex.getParams()[i])
                     derivs.append(None)
+                    continue
 
                 dx = (newpatch - patch0) * (counts / step)
                 dx.setName('d(%s)/d(%s)' % (self.dname, inames[i]))
-- 
2.43.0


From 06b70729c0582095e440baf8e9740b55ffcd71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 039/110] fix: PixelizedPSF dropped the last row and column
 when given a radius

---
 tractor/psf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 4768278..afe0d75 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -152,8 +152,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             H,W = img.shape
             cx = W//2
             cy = H//2
-            img = img[max(cy-R, 0) : min(cy+R+1,H-1),
-                      max(cx-R, 0) : min(cx+R+1,W-1)]
+            img = img[max(cy-R, 0) : min(cy+R+1,H),
+                      max(cx-R, 0) : min(cx+R+1,W)]
             
         H, W = img.shape
         # float() required because builtin round(np.float64(11.0)) returns 11.0 !!
@@ -338,8 +338,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             cy = H//2
             xlo = max(cx-R, 0)
             ylo = max(cy-R, 0)
-            img = img[ylo : min(cy+R+1,H-1),
-                      xlo : min(cx+R+1,W-1)]
+            img = img[ylo : min(cy+R+1,H),
+                      xlo : min(cx+R+1,W)]
             x0 += xlo
             y0 += ylo
 
-- 
2.43.0


From e970cd3b43416d1c510147c2dab931d94e65affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 040/110] fix: the python fallback of lanczos_shift_image
 ignored inplace

---
 tractor/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index afe0d75..2f1bb2a 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -46,6 +46,8 @@ def lanczos_shift_image(img, dx, dy, inplace=False, force_python=False):
         Ly /= Ly.sum()
         sx     = correlate1d(img, Lx, axis=1, mode='constant')
         outimg = correlate1d(sx,  Ly, axis=0, mode='constant')
+        if inplace:
+            img[:,:] = outimg
         return outimg
 
     outimg = np.empty(img.shape, np.float32)
-- 
2.43.0


From d5844a6bc2bdde85131616b203f9b7116d2f4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 041/110] fix: galaxies with a resampled PsfEx PSF ignored its
 spatial variation

---
 tractor/psf.py   | 2 +-
 tractor/psfex.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 2f1bb2a..2790289 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -355,7 +355,7 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         # shift by fractional pixel
         dx = px - int(px)
         dy = py - int(py)
-        _, _, img = self._sampleImage(None, dx, dy)
+        _, _, img = self._sampleImage(self.getImage(px, py), dx, dy)
         pad, cx, cy = self._padInImage(sz, sz, img=img)
         cx += dx
         cy += dy
diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6d58f1e..44a9282 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -465,6 +465,7 @@ class PixelizedPsfEx(PixelizedPSF):
         None
         '''
         self.psfex.shift(dx, dy)
+        self.clear_cache()
 
     def constantPsfAt(self, x, y):
         pix = self.psfex.at(x, y)
-- 
2.43.0


From b20202813624aad19102aac53834dec1439726b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 042/110] fix: galaxies could not be rendered through a
 ShiftedWcs or ScaledWcs

---
 tractor/shifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 4e69bdb..adf96b3 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -147,7 +147,7 @@ class ScaledPhotoCal(ParamsWrapper, ducks.ImageCalibration):
         return self.factor * self.pc.brightnessToCounts(brightness)
 
 
-class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
+class ScaledWcs(ParamsWrapper, ducks.WCS):
     def __init__(self, wcs, factor):
         super(ScaledWcs, self).__init__(wcs)
         self.factor = factor
@@ -168,7 +168,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
                 (y + 0.5) * self.factor - 0.5)
 
 
-class ShiftedWcs(ParamsWrapper, ducks.ImageCalibration):
+class ShiftedWcs(ParamsWrapper, ducks.WCS):
     '''
     Wraps a WCS in order to use it for a subimage.
     '''
-- 
2.43.0


From 2b3735814283204ab8c20963b4c1d3ce715e153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:49 +0000
Subject: [PATCH 043/110] fix: rendering with a NormalizedPsf modified the PSF
 image and cached transform

---
 tractor/psf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 2790289..031b3fe 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -964,14 +964,16 @@ class NormalizedPsf(object):
         fft, (cx,cy), shape, (v,w) = super().getFourierTransform(px, py, radius)
         n = np.abs(fft[0][0])
         if n != 0:
-            fft /= n
+            # not in-place: this may be the cached array
+            fft = fft / n
         return fft, (cx,cy), shape, (v,w)
 
     def getImage(self, px, py):
         img = super().getImage(px, py)
         n = np.sum(img)
         if n != 0:
-            img /= n
+            # not in-place: this may be the PSF model's own image
+            img = img / n
         return img
 
     def _sampleImage(self, img, dx, dy, **kwargs):
-- 
2.43.0


From 0c6cd6f9f571dcc3b14b6ef6be41205c4c017eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:49 +0000
Subject: [PATCH 044/110] fix: resampled NormalizedPsf was normalized within
 the model mask, not over the whole PSF

---
 tractor/psf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 031b3fe..fe24185 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -977,11 +977,15 @@ class NormalizedPsf(object):
         return img
 
     def _sampleImage(self, img, dx, dy, **kwargs):
-        xl,yl,img = super()._sampleImage(img, dx, dy, **kwargs)
-        n = img.sum()
+        xl,yl,sub = super()._sampleImage(img, dx, dy, **kwargs)
+        full = sub
+        if kwargs:
+            # a sub-window was requested: normalize by the sum of the whole PSF
+            _,_,full = super()._sampleImage(img, dx, dy)
+        n = full.sum()
         if n != 0:
-            img /= n
-        return xl,yl,img
+            sub /= n
+        return xl,yl,sub
 
 class NormalizedPixelizedPsf(NormalizedPsf, PixelizedPSF):
     def __str__(self):
-- 
2.43.0


From 3d20dfd30855dfa384aaf9848e63d81f951a65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 045/110] fix: python MixtureOfGaussians Fourier transform with
 mixed zero/nonzero means, and zero_mean

---
 tractor/mixture_profiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index c2d8faa..43932aa 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -207,14 +207,15 @@ class MixtureOfGaussians(object):
                        (a * v[np.newaxis, :]**2 +
                         d * w[:, np.newaxis]**2 +
                         2 * b * v[np.newaxis, :] * w[:, np.newaxis]))
-            if mu[0] != 0. or mu[1] != 0.:
+            if (mu[0] != 0. or mu[1] != 0.) and not zero_mean:
                 F = F * np.exp(-2. * np.pi * 1j * (mu[0] * v[np.newaxis, :] +
                                                    mu[1] * w[:, np.newaxis]))
 
             if Fsum is None:
                 Fsum = amp * F
             else:
-                Fsum += amp * F
+                # (not in-place: F may be real for some components and complex for others)
+                Fsum = Fsum + amp * F
 
         return Fsum
 
-- 
2.43.0


From b6094ec6bbe694e485a17bfea469e14e9fbba22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:10 +0000
Subject: [PATCH 046/110] fix: Gaussian-mixture evaluators crashed the
 interpreter on arguments of the wrong type

---
 tractor/mix.i | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/tractor/mix.i b/tractor/mix.i
index 35698d8..4df8bbc 100644
--- a/tractor/mix.i
+++ b/tractor/mix.i
@@ -222,31 +222,24 @@ static int get_np(PyObject* ob_amp,
         (ob_mask && (ob_mask != Py_None) && !*np_mask)) {
         if (!*np_amp) {
             ERR("amp wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_mean) {
             ERR("mean wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_var) {
             ERR("var wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_result) {
             ERR("result wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if ((ob_xderiv != Py_None) && !*np_xderiv) {
             ERR("xderiv wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if ((ob_yderiv != Py_None) && !*np_yderiv) {
             ERR("yderiv wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (ob_mask && (ob_mask != Py_None) && !*np_mask) {
             ERR("mask wasn't the type expected");
-            Py_DECREF(btype);
         }
         return 1;
     }
@@ -347,23 +340,18 @@ static int c_gauss_2d(PyObject* ob_pos, PyObject* ob_amp,
     if (!(np_pos && np_amp && np_mean && np_var && np_result)) {
         if (!np_pos) {
             ERR("pos wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_amp) {
             ERR("amp wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_mean) {
             ERR("mean wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_var) {
             ERR("var wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_result) {
             ERR("result wasn't the type expected");
-            Py_DECREF(dtype);
         }
         goto bailout;
     }
-- 
2.43.0


From 794a1f19c895463f923b8f17dea98c5af3197354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:10 +0000
Subject: [PATCH 047/110] fix: thresholded mixture evaluation wrote out of
 bounds for an empty box

---
 tractor/approx3.c | 8 ++++++++
 tractor/mix.i     | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index cc4192e..865ae35 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -57,6 +57,14 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
         goto bailout;
     }
 
+    if (W <= 0 || H <= 0) {
+        // empty box: nothing to evaluate.  (*sx1 and *sy1 are incremented below)
+        *sx0 = *sy0 = 0;
+        *sx1 = *sy1 = -1;
+        rtn = 0;
+        goto bailout;
+    }
+
     amp    = PyArray_DATA(np_amp);
     mean   = PyArray_DATA(np_mean);
     var    = PyArray_DATA(np_var);
diff --git a/tractor/mix.i b/tractor/mix.i
index 4df8bbc..64a46a5 100644
--- a/tractor/mix.i
+++ b/tractor/mix.i
@@ -674,6 +674,12 @@ static int c_gauss_2d_approx2(int x0, int x1, int y0, int y1,
     var = PyArray_DATA(np_var);
     result = PyArray_DATA(np_result);
 
+    if (W <= 0 || H <= 0) {
+        // empty box: nothing to evaluate.
+        rtn = 0;
+        goto bailout;
+    }
+
     II = malloc(sizeof(double) * 3 * K);
     VV = malloc(sizeof(double) * 3 * K);
     scales = malloc(sizeof(double) * K);
-- 
2.43.0


From ec416f34069feeb0b8eb0873780736852d15e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:10 +0000
Subject: [PATCH 048/110] fix: ceres_opt with numeric derivatives skipped or
 repeated images

---
 tractor/ceres.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index 219580c..e5a99f9 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -444,7 +444,7 @@ static PyObject* ceres_opt(PyObject* tractor,
                 (new NumericDiffImageCost(icf), ceres::TAKE_OWNERSHIP,
                  numeric_stepsize);
 #endif
-            for (i=0; i<nparams; i++)
+            for (int j=0; j<nparams; j++)
                 dyncost->AddParameterBlock(1);
             dyncost->SetNumResiduals(icf->nPix());
             cost = dyncost;
-- 
2.43.0


From db067ab9562723ccd1735555050ef7cb8e2f0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:10 +0000
Subject: [PATCH 049/110] fix: Ceres optimization failed when some parameter
 did not affect some image

---
 tractor/ceres-tractor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index c036df9..5141c77 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -272,6 +272,7 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
         printf("failed to setParams()\n");
         return false;
     }
+    Py_DECREF(ret);
 
     // Get residuals (chi image)
     PyArrayObject* np_chi;
@@ -309,6 +310,11 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
         return true;
     }
 
+    // Parameters that do not affect this image have zero derivatives.
+    for (int i=0; i<_nparams; i++)
+        if (jacobians[i])
+            memset(jacobians[i], 0, _npix*sizeof(double));
+
     // NOTE -- _getOneImageDerivs() returns dCHI / dParam, not the usual
     // dModel / dParam!
     PyObject* allderivs = PyObject_CallMethod(
-- 
2.43.0


From 251c521094b3a6b15f8b53c323a13937734472d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 050/110] fix: thresholded mixture evaluation wrote outside
 one-pixel-wide boxes at negative coordinates

---
 tractor/approx3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index 865ae35..cff4362 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -138,8 +138,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
             int newxc, newyc;
             int ix,iy;
             double maxpix = 0.;
-            newxc = (x0+x1)/2;
-            newyc = (y0+y1)/2;
+            newxc = x0 + (x1-x0)/2;
+            newyc = y0 + (y1-y0)/2;
             // We search along the edge(s) nearest the given xc,yc.
             if ((xc < x0) || (xc >= x1)) {
                 if (xc < x0) {
-- 
2.43.0


From e7a941cdfb8722a6abe36ce62ec8ec02516614c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:36 +0000
Subject: [PATCH 051/110] fix: NCircularGaussianPSF raised an error when its
 patch lay outside the clip extent

---
 tractor/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index fe24185..ec9d5a9 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -932,6 +932,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             x1 = min(x1, xh)
             y0 = max(y0, yl)
             y1 = min(y1, yh)
+            if x0 >= x1 or y0 >= y1:
+                return None
         # UGH - API question -- is the getMixtureOfGaussians() result read-only?
         mix = self.getMixtureOfGaussians()
         oldmean = mix.mean
-- 
2.43.0


From bad2e932bd92fc5d95c51eb15e13a2876fc8620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:05 +0000
Subject: [PATCH 052/110] fix: MovingPointSource derivatives raised an error
 when the source did not overlap the model mask

---
 tractor/motion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tractor/motion.py b/tractor/motion.py
index 51fc6ba..24a98fc 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -146,6 +146,8 @@ class MovingPointSource(PointSource):
         pos0 = self.getPositionAtTime(t)
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         patch0 = img.getPsf().getPointSourcePatch(px0, py0, modelMask=modelMask)
+        if patch0 is None:
+            return [None] * self.numberOfParams()
         counts0 = img.getPhotoCal().brightnessToCounts(self.brightness)
         derivs = []
 
@@ -189,7 +191,10 @@ class MovingPointSource(PointSource):
                 # print 'stepping param', name, i, '-->', p, '--> pos', tpos, 'pix pos', px,py
                 patchx = img.getPsf().getPointSourcePatch(px, py, modelMask=modelMask)
                 p.setParam(i, oldval)
-                dx = (patchx - patch0) * (counts0 / pstep)
+                if patchx is None:
+                    dx = patch0 * (-1 * counts0 / pstep)
+                else:
+                    dx = (patchx - patch0) * (counts0 / pstep)
                 dx.setName('d(ptsrc)/d(%s%i)' % (name, i))
                 # print 'deriv', dx.patch.min(), dx.patch.max()
                 derivs.append(dx)
-- 
2.43.0


From 975776b7b1625c4ffe568f6877745c2a10b0c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 053/110] fix: cached models ignored model masks and confused
 parameter values with equal hashes

---
 tractor/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index a35c60d..c6102b6 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -18,12 +18,12 @@ class TractorCacheMixin(object):
         self.cache.clear()
 
     def getModelPatch(self, img, src, minsb=None, **kwargs):
-        if self.cache is None:
+        if self.cache is None or self.modelMasks is not None:
             return super(TractorCacheMixin, self).getModelPatch(
-                img, src, **kwargs)
+                img, src, minsb=minsb, **kwargs)
 
+        # (not hash(deps): eg, hash(-1.) == hash(-2.))
         deps = (img.hashkey(), src.hashkey())
-        deps = hash(deps)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
             minsb = img.modelMinval
-- 
2.43.0


From 0fee5b22ab1ce18f570aa3ed7ce4f78bae48ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 054/110] fix: replacing an entry in a full Cache evicted
 another entry; len(NullCache) failed

---
 tractor/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index c6102b6..e3bc3ee 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -102,7 +102,7 @@ class Cache(object):
         e.size = sz
         e.hits = 0
         # purge LRU item
-        if len(self.dict) >= self.maxsize:
+        if key not in self.dict and len(self.dict) >= self.maxsize:
             self.dict.popitem(0)
         self.dict[key] = e
 
@@ -223,4 +223,4 @@ class NullCache(object):
         return 0
 
     def __len__(self):
-        return len(self.dict)
+        return 0
-- 
2.43.0


From cb5b95705fb8816aca3fc864dd089024532ec98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:39 +0000
Subject: [PATCH 055/110] fix: composite sources ignored a request for minsb=0

---
 tractor/devcore.py | 6 +++---
 tractor/galaxy.py  | 6 +++---
 tractor/sercore.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tractor/devcore.py b/tractor/devcore.py
index 8ef4a72..da8c59a 100644
--- a/tractor/devcore.py
+++ b/tractor/devcore.py
@@ -38,10 +38,10 @@ class DevCoreGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightnessDev, self.brightnessPsf]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None):
+    def _getModelPatches(self, img, minsb=None, modelMask=None):
         d = DevGalaxy(self.pos, self.brightnessDev, self.shapeDev)
         p = PointSource(self.pos, self.brightnessPsf)
-        if minsb == 0. or minsb is None:
+        if minsb is None:
             kw = {}
         else:
             kw = dict(minsb=minsb / 2.)
@@ -51,7 +51,7 @@ class DevCoreGalaxy(MultiParams, BasicSource):
         pp = p.getModelPatch(img, modelMask=modelMask, **kw)
         return (pd, pp)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None):
+    def getModelPatch(self, img, minsb=None, modelMask=None):
         pd, pp = self._getModelPatches(img, minsb=minsb, modelMask=modelMask)
         return add_patches(pd, pp)
 
diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 3501a53..2e9357f 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -1076,11 +1076,11 @@ class CompositeGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightnessExp, self.brightnessDev]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None, **kwargs):
+    def _getModelPatches(self, img, minsb=None, modelMask=None, **kwargs):
         e = ExpGalaxy(self.pos, self.brightnessExp, self.shapeExp)
         d = DevGalaxy(self.pos, self.brightnessDev, self.shapeDev)
         kw = kwargs.copy()
-        if minsb:
+        if minsb is not None:
             kw.update(minsb=minsb / 2.)
         if hasattr(self, 'halfsize'):
             e.halfsize = d.halfsize = self.halfsize
@@ -1088,7 +1088,7 @@ class CompositeGalaxy(MultiParams, BasicSource):
         pd = d.getModelPatch(img, modelMask=modelMask, **kw)
         return (pe, pd)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None, **kwargs):
+    def getModelPatch(self, img, minsb=None, modelMask=None, **kwargs):
         pe, pd = self._getModelPatches(img, minsb=minsb, modelMask=modelMask,
                                        **kwargs)
         return add_patches(pe, pd)
diff --git a/tractor/sercore.py b/tractor/sercore.py
index edd228f..de51012 100644
--- a/tractor/sercore.py
+++ b/tractor/sercore.py
@@ -41,10 +41,10 @@ class SersicCoreGalaxy(MultiParams, BasicSource):
     def getBrightnesses(self):
         return [self.brightness, self.brightnessPsf]
 
-    def _getModelPatches(self, img, minsb=0., modelMask=None):
+    def _getModelPatches(self, img, minsb=None, modelMask=None):
         s = SersicGalaxy(self.pos, self.brightness, self.shape, self.sersicindex)
         p = PointSource(self.pos, self.brightnessPsf)
-        if minsb == 0. or minsb is None:
+        if minsb is None:
             kw = {}
         else:
             kw = dict(minsb=minsb / 2.)
@@ -54,7 +54,7 @@ class SersicCoreGalaxy(MultiParams, BasicSource):
         pp = p.getModelPatch(img, modelMask=modelMask, **kw)
         return (ps, pp)
 
-    def getModelPatch(self, img, minsb=0., modelMask=None):
+    def getModelPatch(self, img, minsb=None, modelMask=None):
         ps, pp = self._getModelPatches(img, minsb=minsb, modelMask=modelMask)
         return add_patches(ps, pp)
 
-- 
2.43.0


From 4e89e760180d4f5c8a90a678e68bc596d22de9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:42 +0000
Subject: [PATCH 056/110] fix: getGaussianPriors reported the wrong index (and
 frozen parameters) for partly frozen parameter lists

---
 tractor/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index f88ac2f..f01218c 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -98,8 +98,17 @@ class _GaussianPriors(object):
             chisq += (p[i] - mu)**2 / sigma**2
         return -0.5 * chisq
 
-    def getGaussianPriors(self):
-        return [(i, mu, sigma) for name, i, mu, sigma in self.terms]
+    def getGaussianPriors(self, param=None):
+        if param is None:
+            param = self.param
+        pr = []
+        for name, j, mu, sigma in self.terms:
+            i = param.getLiquidIndexOfIndex(j)
+            # frozen:
+            if i == -1:
+                continue
+            pr.append((i, mu, sigma))
+        return pr
 
     def getDerivs(self, param=None):
         '''
@@ -163,7 +172,7 @@ class GaussianPriorsMixin(object):
         return self.gpriors.getDerivs(param=self)
 
     def getGaussianPriors(self):
-        return self.gpriors.getGaussianPriors()
+        return self.gpriors.getGaussianPriors(param=self)
 
     def isLegal(self):
         '''
-- 
2.43.0


From 3c4eef990d3c82d76d25def7ba31c104c465dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:42 +0000
Subject: [PATCH 057/110] fix: MogParams ignored its Gaussian priors in
 getLogPrior but not in the derivatives

---
 tractor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index f01218c..04ce218 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1367,7 +1367,7 @@ class MogParams(ParamList):
         if np.any(np.logical_or(self.mog.var[:, 0, 0] < 0.,
                                 self.mog.var[:, 1, 1] < 0.)):
             return -np.inf
-        return 0.
+        return self.getGaussianLogPrior()
 
     def _set_param_names(self, K):
         # ordering: A0, A1, ... Ak, mux0, muy0, mux1, muy1, mux2, muy2, ...
-- 
2.43.0


From d53e87bb90811311da420d2b104c0ad6b092e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:34 +0000
Subject: [PATCH 058/110] fix: SplineSky smoothness prior ignored frozen
 parameters and returned columns that the optimizers cannot use

---
 tractor/splinesky.py | 65 +++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 9ed6452..a21a2bd 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -153,8 +153,6 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         return lnP
 
     def getLogPriorDerivatives(self):
-        # FIXME -- we ignore frozenness!
-
         if self.prior_smooth_sigma is None:
             return None
 
@@ -163,47 +161,34 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         vA = []
         pb = []
         mub = []
-        # columns are parameters
-        # rows are prior terms
+        # columns are (thawed) parameters
+        # rows are prior terms: differences between neighbours
 
-        #
         p = self.getParamGrid()
         sig = self.prior_smooth_sigma
-        # print 'Param grid', p.shape
-        # print 'len', len(p)
-        II = np.arange(len(p.ravel())).reshape(p.shape)
-        assert(p.shape == II.shape)
-
-        dx = p[:, 1:] - p[:, :-1]
-        dy = p[1:, :] - p[:-1, :]
-
-        NX = len(dx.ravel())
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, :-1].ravel())
-        vA.append(np.ones(NX) / sig)
-        pb.append(dx.ravel() / sig)
-        # Not 100% certain of this...
-        mub.append(np.zeros(NX))
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, 1:].ravel())
-        vA.append(-np.ones(NX) / sig)
-
-        NY = len(dy.ravel())
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[:-1, :].ravel())
-        vA.append(np.ones(NY) / sig)
-        pb.append(dy.ravel() / sig)
-        mub.append(np.zeros(NY))
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[1:, :].ravel())
-        vA.append(-np.ones(NY) / sig)
-
-        # print 'log prior chi: returning', len(rA), 'sets of terms'
-
+        II = np.arange(p.size).reshape(p.shape)
+        p = p.ravel()
+
+        I = np.append(II[:, :-1].ravel(), II[:-1, :].ravel())
+        J = np.append(II[:, 1:].ravel(), II[1:, :].ravel())
+        row = 0
+        for i, j in zip(I, J):
+            terms = [(self.getLiquidIndexOfIndex(k), v)
+                     for k, v in [(i, 1. / sig), (j, -1. / sig)]]
+            # drop frozen parameters
+            terms = [(c, v) for c, v in terms if c != -1]
+            if len(terms) == 0:
+                continue
+            for c, v in terms:
+                rA.append([row])
+                cA.append(c)
+                vA.append([v])
+            pb.append([(p[j] - p[i]) / sig])
+            # Not 100% certain of this...
+            mub.append([0.])
+            row += 1
+        if row == 0:
+            return None
         return (rA, cA, vA, pb, mub)
 
     def getParamDerivatives(self, *args):
-- 
2.43.0


From a8c0d3ecee0c7b378f5842a03a47688cf31a65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:34 +0000
Subject: [PATCH 059/110] fix: dense optimizers dropped part of prior terms
 that involve more than one parameter

---
 tractor/dense_optimizer.py         | 6 +++---
 tractor/smarter_dense_optimizer.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tractor/dense_optimizer.py b/tractor/dense_optimizer.py
index 218d4da..e0841a3 100644
--- a/tractor/dense_optimizer.py
+++ b/tractor/dense_optimizer.py
@@ -153,12 +153,12 @@ class ConstrainedDenseOptimizer(ConstrainedOptimizer):
         if Npriors > 0:
             rA, cA, vA, pb, mub = priorVals
             #print('Priors: pb', pb, 'mub', mub)
-            for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+            B[Npixels:] = np.hstack(pb)
+            for ri,ci,vi in zip(rA, cA, vA):
                 if scale_columns:
                     colscales2[ci] += np.dot(vi, vi)
-                for rij,vij,bij in zip(ri, vi, bi):
+                for rij,vij in zip(ri, vi):
                     A[Npixels + rij, ci] = vij
-                    B[Npixels + rij] += bij
             del priorVals, rA, cA, vA, pb, mub
 
         if scale_columns:
diff --git a/tractor/smarter_dense_optimizer.py b/tractor/smarter_dense_optimizer.py
index 355e633..c1c6f8b 100644
--- a/tractor/smarter_dense_optimizer.py
+++ b/tractor/smarter_dense_optimizer.py
@@ -214,16 +214,16 @@ class SmarterDenseOptimizer(ConstrainedOptimizer):
 
         if Npriors > 0:
             rA, cA, vA, pb, _ = priorVals
-            for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+            B[Npixels:] = np.hstack(pb)
+            for ri,ci,vi in zip(rA, cA, vA):
                 col = column_map[ci]
                 #print('Prior in col', ci, '->', col)
                 assert(col >= 0)
                 if scale_columns:
                     # (note, np.dot works when vi is a list)
                     colscales[col] += np.dot(vi, vi)
-                for rij,vij,bij in zip(ri, vi, bi):
+                for rij,vij in zip(ri, vi):
                     A[Npixels + rij, col] = vij
-                    B[Npixels + rij] += bij
             del priorVals, rA, cA, vA, pb
 
         if scale_columns:
-- 
2.43.0


From 06c1caf3184d376aed229267dc0771c3513256ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 060/110] fix: LSQR update raised IndexError when the last
 parameter had no derivatives

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index ad89c3d..43e6a84 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -501,7 +501,7 @@ class LsqrOptimizer(Optimizer):
             # print('After:')
             #print('spcols:', len(spcols), 'elements')
             #print('  ', len(set(spcols)), 'unique')
-            Ncols = np.max(spcols) + 1
+            Ncols = len(U)
             logverb('Set Ncols=', Ncols)
 
         # b = chi
-- 
2.43.0


From 83a7218bbfd9c2b879eb545a9a63f562a356aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 061/110] fix: LSQR column scales were always empty, and
 variances infinite without column scaling

---
 tractor/lsqr_optimizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 43e6a84..1123d1e 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -420,7 +420,7 @@ class LsqrOptimizer(Optimizer):
                     logverb('Col %i: all (weighted) derivs are zero')
                     continue
                 vals = vals.flat[nz]
-                if scale_columns:
+                if scale_columns or scales_only or variance:
                     colscales[col] += np.dot(vals, vals)
                 if scales_only:
                     continue
@@ -439,7 +439,7 @@ class LsqrOptimizer(Optimizer):
                 rA, cA, vA, pb, _ = X
 
                 for ri, ci, vi in zip(rA, cA, vA):
-                    if scale_columns:
+                    if scale_columns or scales_only or variance:
                         colscales[ci] += np.dot(vi, vi)
                     if scales_only:
                         continue
@@ -454,6 +454,9 @@ class LsqrOptimizer(Optimizer):
                 b = np.zeros(Nrows, np.float32)
                 b[oldnrows:] = np.hstack(pb)
 
+        if scales_only:
+            return np.sqrt(colscales)
+
         if len(spcols) == 0:
             logverb("len(spcols) == 0")
             return []
@@ -461,9 +464,6 @@ class LsqrOptimizer(Optimizer):
         assert(len(sprows) == len(spcols))
         assert(len(sprows) == len(spvals))
 
-        if scales_only:
-            return np.sqrt(colscales)
-
         if variance:
             var = colscales
 
-- 
2.43.0


From b831cf280897cb59cf561b6ef6cae0049b02e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 062/110] fix: LSQR gave shared parameters different updates,
 and variances of other parameters

---
 tractor/lsqr_optimizer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 1123d1e..c3807c5 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -395,8 +395,6 @@ class LsqrOptimizer(Optimizer):
         del nextrow
         Ncols = len(allderivs)
 
-        # FIXME -- shared_params should share colscales!
-
         colscales = np.zeros(Ncols)
         for col, param in enumerate(allderivs):
             for (deriv, img) in param:
@@ -454,6 +452,11 @@ class LsqrOptimizer(Optimizer):
                 b = np.zeros(Nrows, np.float32)
                 b[oldnrows:] = np.hstack(pb)
 
+        if shared_params:
+            # shared parameters must share column scales
+            colscales = np.bincount(paramindexmap, weights=colscales)
+            colscales = colscales[paramindexmap]
+
         if scales_only:
             return np.sqrt(colscales)
 
@@ -635,10 +638,6 @@ class LsqrOptimizer(Optimizer):
         logverb('  X=', X)
 
         if variance:
-            if shared_params:
-                # Unapply shared parameter map.
-                var = var[paramindexmap]
-
             return X, 1./np.array(var)
 
         return X
-- 
2.43.0


From b088b7c279fe91bbdf262b9421309c010ebcc177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 063/110] fix: LSQR optimize returned a result of the wrong
 length when no variance could be computed

---
 tractor/lsqr_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index c3807c5..70e1b24 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -287,9 +287,15 @@ class LsqrOptimizer(Optimizer):
         X = self.getLinearUpdateDirection(tractor, **kwa)
         if X is None:
             # Failure
+            if just_variance:
+                return None
+            if variance:
+                return (0., None, 0., None)
             return (0., None, 0.)
         if variance:
             if len(X) == 0:
+                if just_variance:
+                    return None
                 return 0, X, 0, None
             X, var = X
             if just_variance:
-- 
2.43.0


From aad4ee6d3986bb44edefb5550bab121b118f0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 064/110] fix: forced photometry with ROIs fit the inverse
 errors instead of the data

---
 tractor/lsqr_optimizer.py | 11 +++++++----
 tractor/optimize.py       |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 70e1b24..acc6e5e 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 from astrometry.util.ttime import Time
-from tractor.engine import logverb, isverbose, logmsg
+from tractor.engine import Images, logverb, isverbose, logmsg
 from tractor.optimize import Optimizer
 from tractor.utils import listmax
 
@@ -102,7 +102,9 @@ class LsqrOptimizer(Optimizer):
             # which image.  Temporarily set images = subimages
             if rois is not None:
                 realims = tractor.images
-                tractor.images = subimgs
+                tractor.images = Images(*subimgs)
+                # keep the frozen/thawed state: one parameter per image
+                tractor.images.liquid = list(realims.liquid)
 
             #logverb('forced phot: getting update with damp=', damping)
             #t0 = Time()
@@ -110,6 +112,9 @@ class LsqrOptimizer(Optimizer):
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            if rois is not None:
+                tractor.images = realims
+
             if X is None or len(X) == 0:
                 print('Error getting update direction')
                 break
@@ -117,8 +122,6 @@ class LsqrOptimizer(Optimizer):
             #topt = Time() - t0
             #logverb('forced phot: opt:', topt)
             #print('forced phot: update', X)
-            if rois is not None:
-                tractor.images = realims
 
             # tryUpdates():
             if alphas is None:
diff --git a/tractor/optimize.py b/tractor/optimize.py
index ab58a65..03abf02 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -502,7 +502,7 @@ class Optimizer(object):
             im = img.getImage()
             if roi is not None:
                 ie = ie[roi]
-                im = ie[roi]
+                im = im[roi]
             chi = (im - mod) * ie
 
             # DEBUG
-- 
2.43.0


From 6a41f0a8777d0bb08e14afd3d6ac09e819058010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 065/110] fix: forced photometry stepped the sky by the last
 step tried instead of the best one

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index acc6e5e..43ca863 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -190,7 +190,7 @@ class LsqrOptimizer(Optimizer):
                 tractor.catalog.setParams(pa)
 
                 if sky:
-                    tractor.images.setParams([p + alpha * d for p, d
+                    tractor.images.setParams([p + alphaBest * d for p, d
                                               in zip(p0sky, Xsky)])
 
                 dlogprob = lnpBest - lnp0
-- 
2.43.0


From 85e7683dda552014364a3233551577469db77f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 066/110] fix: forced photometry raised an error when asked for
 the sky variance

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 03abf02..0f4bc0b 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -385,7 +385,7 @@ class Optimizer(object):
         IV = np.zeros(Nsky + Nsourceparams)
         # sky derivs first
         if sky and skyvariance:
-            for di, (dsky, tim) in enumerate(skyderivs):
+            for di, [(dsky, tim)] in enumerate(skyderivs):
                 ie = tim.getInvError()
                 if dsky.shape == tim.shape:
                     dchi2 = np.sum((dsky.patch * ie)**2)
-- 
2.43.0


From d76fb7f2aedc7384fe675d011607f8c47d91b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 067/110] fix: forced-photometry fit statistics used the fluxes
 of other sources when some were frozen

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 0f4bc0b..c5bfc26 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -293,7 +293,7 @@ class Optimizer(object):
         # for each source:
         for si, uis in enumerate(umodsforsource):
             # print 'fit stats for source', si, 'of', len(umodsforsource)
-            src = catalog[si]
+            src = srcs[si]
             # for each image
             for imi, (umods, scale, tim, (img, mod, ie, chi, roi)) in enumerate(
                     zip(umodels, scales, imlist, imsBest)):
-- 
2.43.0


From b0329cd5db52223a80fff6ba15d9564fa282c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:28 +0000
Subject: [PATCH 068/110] fix: forced-photometry fit statistics were wrong for
 sources overlapping the left or bottom edge

---
 tractor/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index c5bfc26..0ed607f 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -333,7 +333,9 @@ class Optimizer(object):
                 # Divide by total flux, not flux within this image; sum <= 1.
                 if xlo is None or xhi is None or ylo is None or yhi is None:
                     continue
-                slc = slice(ylo, yhi), slice(xlo, xhi)
+                # (the models can start off the image)
+                slc = (slice(max(0, ylo), max(0, yhi)),
+                       slice(max(0, xlo), max(0, xhi)))
 
                 srcmod[slc] /= sourcecounts
 
-- 
2.43.0


From 42c477874fff6795f1cfaa69bba771d2b5ede50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:55 +0000
Subject: [PATCH 069/110] fix: Image.subimage lost the frozen state and
 rendering threshold of the image

---
 tractor/image.py          | 2 ++
 tractor/lsqr_optimizer.py | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/image.py b/tractor/image.py
index cb3a183..720e92b 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -93,6 +93,8 @@ class Image(MultiParams):
                        photocal=self.photocal.copy())
         subtim.name = self.name
         subtim.time = self.time
+        subtim.modelMinval = self.modelMinval
+        subtim.liquid = [l for l in self.liquid]
         return subtim
 
     @staticmethod
diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 43ca863..3115cb8 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -103,7 +103,6 @@ class LsqrOptimizer(Optimizer):
             if rois is not None:
                 realims = tractor.images
                 tractor.images = Images(*subimgs)
-                # keep the frozen/thawed state: one parameter per image
                 tractor.images.liquid = list(realims.liquid)
 
             #logverb('forced phot: getting update with damp=', damping)
-- 
2.43.0


From 3b50a2eae0486e6668f1204cbe4e3e721e014dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 070/110] fix: Ceres forced photometry raised AssertionError
 with nonneg=True

---
 tractor/ceres_optimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 13a7b91..856344c 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -362,7 +362,6 @@ class CeresOptimizer(Optimizer):
         if nonneg:
             # Initial run with nonneg=False, to get in the ballpark
             x = ceres_forced_phot(blocks, fluxes, 0, iverbose, ithreads)
-            assert(x == 0)
             logverb('forced phot: ceres initial run', Time() - t0)
             t0 = Time()
             if negfluxval is not None:
-- 
2.43.0


From b3a5fde661464aab2cae7331e9314b509cdb54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 071/110] fix: Ceres forced photometry scrambled images stored
 in Fortran order

---
 tractor/ceres_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 856344c..efb30d1 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -285,9 +285,9 @@ class CeresOptimizer(Optimizer):
                         slc = (slice(y0, min(y0 + self.BH, H)),
                                slice(x0, min(x0 + self.BW, W)))
                         data = (x0, y0,
-                                img.getImage()[slc].astype(self.ceresType),
-                                mod0[slc].astype(self.ceresType),
-                                img.getInvError()[slc].astype(self.ceresType))
+                                img.getImage()[slc].astype(self.ceresType, order='C'),
+                                mod0[slc].astype(self.ceresType, order='C'),
+                                img.getInvError()[slc].astype(self.ceresType, order='C'))
                         blocks.append((data, []))
 
             for modi, umod in enumerate(umods):
@@ -321,7 +321,7 @@ class CeresOptimizer(Optimizer):
                     ceresparam = nextparam
                     nextparam += 1
 
-                cmod = (umod.patch * scale).astype(self.ceresType)
+                cmod = (umod.patch * scale).astype(self.ceresType, order='C')
                 for by in range(by0, by1 + 1):
                     for bx in range(bx0, bx1 + 1):
                         bi = by * nbw + bx
-- 
2.43.0


From e38041059c5e2ef61264a2862db76b2aac9d0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 072/110] fix: Ceres forced photometry rendered its result
 images with sky levels in place of fluxes

---
 tractor/ceres_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index efb30d1..ca275a5 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -335,7 +335,7 @@ class CeresOptimizer(Optimizer):
         if wantims0:
             t0 = Time()
             params = tractor.getParams()
-            result.ims0 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims0 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims0', Time() - t0)
 
@@ -380,7 +380,7 @@ class CeresOptimizer(Optimizer):
 
         if wantims1:
             t0 = Time()
-            result.ims1 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims1 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims1:', Time() - t0)
         return x
-- 
2.43.0


From e1040eef600820f8f20d8a5cff57e93215483986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 073/110] fix: CeresOptimizer ignored the requested block size

---
 tractor/ceres_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index ca275a5..35f0130 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -11,8 +11,8 @@ class CeresOptimizer(Optimizer):
 
     def __init__(self, BW=10, BH=10, threads=None):
         super(CeresOptimizer, self).__init__()
-        self.BW = 10
-        self.BH = 10
+        self.BW = BW
+        self.BH = BH
         self.ceresType = np.float32
         self.threads = threads
 
-- 
2.43.0


From 72b1c9eaedf47526d4317335f522fd70cc8a862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 074/110] fix: CeresOptimizer failed when the catalog was
 frozen

---
 tractor/ceres_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 35f0130..2fcf9b5 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -197,7 +197,10 @@ class CeresOptimizer(Optimizer):
 
             assert(parami == tractor.images.numberOfParams())
 
-        srcs = list(tractor.catalog.getThawedSources())
+        if tractor.isParamFrozen('catalog'):
+            srcs = []
+        else:
+            srcs = list(tractor.catalog.getThawedSources())
         for src in srcs:
             derivs = tractor._getSourceDerivatives(src, img)
             for j, deriv in enumerate(derivs):
-- 
2.43.0


From 9c323124599f30d6fa4944bee9fd3562f830b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 075/110] fix: CeresOptimizer swapped lower and upper bounds of
 parameters with negative step sizes

---
 tractor/ceres_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 2fcf9b5..2c033e5 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -32,7 +32,7 @@ class CeresOptimizer(Optimizer):
             scales[I] = 1. / scales[I]
         I = (scales == 0)
         if any(I):
-            scales[I] = np.array(tractor.getStepSizes())[I]
+            scales[I] = np.abs(np.array(tractor.getStepSizes())[I])
         return scales
 
     def _optimize_forcedphot_core(self, tractor, result, *args, **kwargs):
@@ -71,7 +71,8 @@ class CeresOptimizer(Optimizer):
             if dynamic_scale:
                 scales = self.getDynamicScales(tractor)
             else:
-                scales = np.array(tractor.getStepSizes())
+                # (negative scales would swap lower and upper bounds)
+                scales = np.abs(np.array(tractor.getStepSizes()))
             # print('parameter scales:', scales)
 
             # Offset all the parameters so that Ceres sees them all
-- 
2.43.0


From 06ce5f3cd2905d44e7428f9b785caf9d3f64d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 076/110] fix: forced photometry fit statistics work for every
 sky model with a constant level

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 0ed607f..fbcb95f 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -281,7 +281,7 @@ class Optimizer(object):
         skies = []
         for tim, (img, mod, ie, chi, roi) in zip(imlist, imsBest):
             tim.getSky().addTo(mod, scale=-1.)
-            skies.append(tim.getSky().val)
+            skies.append(tim.getSky().getConstant())
         fs.sky = np.array(skies)
 
         # Some fancy footwork to convert from umods to sources
-- 
2.43.0


From 9b64c47578258649d28547afae03c8c42bf6dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 077/110] fix: forced photometry with ROIs and sky fits the sky
 of the original images

---
 tractor/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index fbcb95f..67abb5b 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -76,6 +76,9 @@ class Optimizer(object):
                 y1 = roi[0].stop
                 x1 = roi[1].stop
                 subimg = img.subimage(x0, x1, y0, y1)
+                if sky:
+                    # we are fitting the image's own sky parameters
+                    subimg.sky = img.getSky()
                 subimgs.append(subimg)
             imlist = subimgs
         else:
-- 
2.43.0


From 173b8194ec98a87ec76b87d8c6d1f986462acaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 078/110] fix: EllipseESoft.fromEllipseE of a round ellipse

---
 tractor/ellipses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index a5bd77d..c4b6a15 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -200,6 +200,8 @@ class EllipseESoft(EllipseE):
     def fromEllipseE(ell, maxe=0.999999):
         e = ell.e
         e = min(e, maxe)
+        if e == 0.:
+            return EllipseESoft(math.log(ell.re), 0., 0.)
         esoft = -math.log(1. - e)
         return EllipseESoft(math.log(ell.re), ell.e1 / e * esoft, ell.e2 / e * esoft)
 
-- 
2.43.0


From c6ddcc0d5dbe506568606e87e83cbc548c720a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 079/110] fix: WcslibWcs implements the WCS interface
 (galaxies, subimages)

---
 tractor/wcs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index b883318..df0319d 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -62,7 +62,7 @@ class NullWCS(BaseParams, ducks.WCS):
                               dy=self.dy - y)
 
 
-class WcslibWcs(BaseParams, ducks.ImageCalibration):
+class WcslibWcs(BaseParams, ducks.WCS):
     '''
     A WCS implementation that wraps a FITS WCS object (with a pixel
     offset), delegating to wcslib.
@@ -131,6 +131,11 @@ class WcslibWcs(BaseParams, ducks.ImageCalibration):
         self.x0 = x0
         self.y0 = y0
 
+    def shifted(self, dx, dy):
+        wcs = self.__class__(None, wcs=self.wcs)
+        wcs.setX0Y0(self.x0 + dx, self.y0 + dy)
+        return wcs
+
     def positionToPixel(self, pos, src=None):
         ok, x, y = self.wcs.radec2pixelxy(pos.ra, pos.dec)
         # MAGIC: 1 for FITS coords.
-- 
2.43.0


From 0883b30b178b7fd3a6249af15737f0caf1aba0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 080/110] fix: WcslibWcs.cdAtPixel across RA=0

---
 tractor/wcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index df0319d..8f6991d 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -161,8 +161,11 @@ class WcslibWcs(BaseParams, ducks.WCS):
             x + 1. + self.x0, y + 2. + self.y0)
 
         cosdec = np.cos(np.deg2rad(dec0))
+        # RA wrap-around
+        dra1 = (ra1 - ra0 + 180.) % 360. - 180.
+        dra2 = (ra2 - ra0 + 180.) % 360. - 180.
 
-        return np.array([[(ra1 - ra0) * cosdec, (ra2 - ra0) * cosdec],
+        return np.array([[dra1 * cosdec, dra2 * cosdec],
                          [dec1 - dec0,        dec2 - dec0]])
 
 
-- 
2.43.0


From 4bb436e0b75d3fd00f2efccc722f12b15f2bbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 081/110] fix: PixelizedPSF.hashkey includes shape, sampling
 and type

---
 tractor/psf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index ec9d5a9..12714af 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -12,7 +12,7 @@ from tractor.wcs import PixPos
 from tractor.brightness import Flux
 from tractor.engine import Tractor
 from tractor.patch import Patch
-from tractor.utils import BaseParams, ParamList, MultiParams, MogParams
+from tractor.utils import BaseParams, ParamList, MultiParams, MogParams, getClassName
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -117,7 +117,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return (self.H, self.W)
 
     def hashkey(self):
-        return ('PixelizedPSF', tuple(self.img.ravel()))
+        return (getClassName(self), self.img.shape, tuple(self.img.ravel()),
+                self.sampling, self.Lorder)
 
     def copy(self):
         return self.__class__(self.img.copy(), sampling=self.sampling,
-- 
2.43.0


From 19e8a223491231d751472bcc4809ab959712b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 082/110] fix: HybridPixelizedPSF.hashkey includes the Gaussian
 approximation

---
 tractor/psf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index 12714af..5e9296b 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -631,6 +631,9 @@ class HybridPixelizedPSF(HybridPSF):
         return ('HybridPixelizedPSF: Gaussian sigma %.2f, Pix %s' %
                 (np.sqrt(self.gauss.mog.var[0, 0, 0]), str(self.pix)))
 
+    def hashkey(self):
+        return (getClassName(self), self.pix.hashkey(), self.gauss.hashkey())
+
     def copy(self):
         s = self.__class__(self.pix.copy(), self.gauss.copy())
         return s
-- 
2.43.0


From f07658f8a2a8727c0742f76244ca69dbd46aca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 083/110] fix: PixelizedPsfEx.hashkey includes the model and
 its shift

---
 tractor/psfex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 44a9282..08afef2 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -443,7 +443,11 @@ class PixelizedPsfEx(PixelizedPSF):
         return 'PixelizedPsfEx'
 
     def hashkey(self):
-        return ('PixelizedPsfEx', self.fn, self.ext)
+        psfex = self.psfex
+        return (getClassName(self), self.fn, self.ext,
+                psfex.x0, psfex.y0, psfex.xscale, psfex.yscale,
+                psfex.degree, psfex.sampling,
+                psfex.bases().shape, psfex.bases().tobytes())
 
     def copy(self):
         psfex = self.psfex.copy()
-- 
2.43.0


From 9af14f56dbc82b73025248de7dc8c2f6fd8a539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 084/110] fix: TanWcs.hashkey includes its parameters

---
 tractor/wcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 8f6991d..52506f9 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -321,6 +321,11 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         # ParamList keeps its params in a list; we don't want to do that.
         del self.vals
 
+    def hashkey(self):
+        # (the parameters of the wrapped WCS object can change)
+        return (super(TanWcs, self).hashkey() + tuple(self.wcs.crval) +
+                tuple(self.wcs.crpix) + tuple(self.wcs.get_cd()))
+
     def copy(self):
         from astrometry.util.util import Tan
         wcs = self.__class__(Tan(self.wcs))
-- 
2.43.0


From e8904b0ec89757939f1b12c19a16321f350e0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 085/110] fix: WcslibWcs.hashkey includes the wrapped WCS and
 offset

---
 tractor/wcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 52506f9..90379c5 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -108,6 +108,9 @@ class WcslibWcs(BaseParams, ducks.WCS):
         self.wcs = anwcs_from_string(hdrstr)
         # print 'unpickling done'
 
+    def hashkey(self):
+        return ('WcslibWcs', self.x0, self.y0, id(self.wcs))
+
     def copy(self):
         raise RuntimeError('unimplemented')
 
-- 
2.43.0


From dd821db5a3aa9d7423aedf37b92ce98ac995cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 086/110] fix: hashkey of multi-band brightnesses includes the
 bands

---
 tractor/brightness.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 0a28154..b3a9165 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -64,6 +64,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
         cop.liquid = [l for l in self.liquid]
         return cop
 
+    def hashkey(self):
+        return super(MultiBandBrightness, self).hashkey() + tuple(self.order)
+
     def getBand(self, band):
         return getattr(self, band)
 
-- 
2.43.0


From efc06070380c05f20739242d25afbed092e19b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 087/110] fix: hashkey of photometric calibrations includes the
 band

---
 tractor/brightness.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index b3a9165..d3da25d 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -253,6 +253,9 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
         self.band = band
         BaseParams.__init__(self)
 
+    def hashkey(self):
+        return (getClassName(self), self.band)
+
     def copy(self):
         return FluxesPhotoCal(self.band)
 
@@ -283,6 +286,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         self.maxmag = 50.
         ParamList.__init__(self, zeropoint)
 
+    def hashkey(self):
+        return (getClassName(self), self.band, self.zp, self.maxmag)
+
     def copy(self):
         cop = MagsPhotoCal(self.band, self.zp)
         cop.maxmag = self.maxmag
@@ -338,6 +344,9 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
         super(LinearPhotoCal, self).__init__(scale)
         self.band = band
 
+    def hashkey(self):
+        return (getClassName(self), self.val, self.band)
+
     def copy(self):
         return self.__class__(self.getValue(), band=self.band)
 
-- 
2.43.0


From 4c7ec32d976f065184f09dd8b6636223e323191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 088/110] fix: SplineSky.hashkey includes offset and grid

---
 tractor/splinesky.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index a21a2bd..5abaaaa 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 import scipy.interpolate as interp
-from tractor.utils import ParamList
+from tractor.utils import ParamList, getClassName
 from tractor import ducks
 
 def median_estimator(pix, mask, min_fraction=None, **kwargs):
@@ -91,6 +91,10 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         c.liquid = [l for l in self.liquid]
         return c
 
+    def hashkey(self):
+        return ((getClassName(self), self.x0, self.y0, self.order) +
+                tuple(self.xgrid) + tuple(self.ygrid) + tuple(self.vals))
+
     def get_grid(self):
         gridvals = self.spl(self.xgrid, self.ygrid).T
         return gridvals
-- 
2.43.0


From 0b796b2a8e8cb3e1567b602f28da062d04d34679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:38 +0000
Subject: [PATCH 089/110] fix: mixture evaluation cut tilted elongated profiles
 short (reported box did not include all evaluated pixels)

---
 tractor/approx3.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index cff4362..2c651ec 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -294,6 +294,11 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    // a row can extend beyond the columns reached so far
+                    if (i < *sx0)
+                        *sx0 = i;
+                    if (i > *sx1)
+                        *sx1 = i;
                     xx = x0 + i;
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
                                      (pxd ? pxd+i : NULL), (pyd ? pyd+i : NULL),
@@ -347,6 +352,11 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    // a row can extend beyond the columns reached so far
+                    if (i < *sx0)
+                        *sx0 = i;
+                    if (i > *sx1)
+                        *sx1 = i;
                     xx = x0 + i;
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
                                      (pxd?pxd+i:NULL), (pyd?pyd+i:NULL), maxD);
@@ -391,6 +401,11 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    // a column can extend beyond the rows reached so far
+                    if (i < *sy0)
+                        *sy0 = i;
+                    if (i > *sy1)
+                        *sy1 = i;
                     yy = y0 + i;
                     off = (yy - y0)*W + (xx - x0);
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
@@ -423,6 +438,11 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    // a column can extend beyond the rows reached so far
+                    if (i < *sy0)
+                        *sy0 = i;
+                    if (i > *sy1)
+                        *sy1 = i;
                     yy = y0 + i;
                     off = (yy - y0)*W + (xx - x0);
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
-- 
2.43.0


From 4ef88401851f4aca3189746758c354b5188de5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 090/110] fix: PsfExModel.copy and shifted dropped the FWHM, so
 copies could not be written

---
 tractor/psfex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 08afef2..ba7b0bc 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -276,7 +276,7 @@ class PsfExModel(object):
     def shifted(self, dx, dy):
         copy = self.__class__()
         for key in ['sampling', 'psfbases', 'xscale', 'yscale', 'degree', 'radius',
-                    'x0', 'y0']:
+                    'x0', 'y0', 'fwhm']:
             setattr(copy, key, getattr(self, key))
         copy.shift(dx, dy)
         return copy
-- 
2.43.0


From db641ede8ee4a135aa35510ff5fb95b7f03276ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 091/110] fix: PsfEx.fromFits could not read what toFits writes

---
 tractor/psfex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index ba7b0bc..a29c602 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from tractor.utils import MultiParams, getClassName
-from tractor.psf import GaussianMixturePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
+from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -575,7 +575,8 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
         T = T[0]
         t = hdr['PSFEX_T'].strip()
         # print 'Type:', t
-        assert(t == 'tractor.psfex.PsfEx')
+        # (the class was formerly named PsfEx)
+        assert(t in ['tractor.psfex.PsfEx', typestring(PsfEx)])
         psft = hdr['PSF_TYPE']
         knowntypes = dict([(typestring(x), x)
                            for x in [GaussianMixturePSF,
-- 
2.43.0


From 0e4cbd815dd69343fb8b5fae5c008cde6fb8c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 092/110] fix: PsfEx read from a FITS table uses the saved fit

---
 tractor/psfex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index a29c602..3c56348 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -69,7 +69,10 @@ class VaryingGaussianPSF(MultiParams, ducks.ImageCalibration):
         This methods does the evaluation if necessary.
         '''
         if self.splines is None:
-            self._fitParamGrid()
+            if getattr(self, 'splinedata', None) is not None:
+                self.ensureSplines()
+            else:
+                self._fitParamGrid()
 
     def getPointSourcePatch(self, px, py, **kwargs):
         psf = self.psfAt(px, py)
-- 
2.43.0


From 2b0fd1835ee5509610f6a7cebe58daf6aea4cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 093/110] fix: CachingPsfEx.fromPsfEx keeps the PsfEx model

---
 tractor/psfex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 3c56348..233d3f1 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -707,7 +707,7 @@ class CachingPsfEx(PsfEx):
                          scale=psfex.scale, K=psfex.K,
                          psfClass=psfex.psfclass, **kwargs)
         for k in ['sampling', 'xscale', 'yscale', 'x0', 'y0', 'degree', 'radius',
-                  'psfbases', 'splinedata', 'splines']:
+                  'psfbases', 'splinedata', 'splines', 'psfex']:
             setattr(c, k, getattr(psfex, k, None))
         return c
 
-- 
2.43.0


From 1ddf46cb3b46e6ba5427ee1ea6ad114adae82f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 094/110] fix: CachingPsfEx used the wrong cell at negative
 positions

---
 tractor/psfex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 233d3f1..faa38ed 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -730,8 +730,8 @@ class CachingPsfEx(PsfEx):
 
     def psfAt(self, x, y):
         # Center of rounding cell:
-        cx = int(x / self.rounding) * self.rounding + self.rounding // 2
-        cy = int(y / self.rounding) * self.rounding + self.rounding // 2
+        cx = int(np.floor(x / self.rounding)) * self.rounding + self.rounding // 2
+        cy = int(np.floor(y / self.rounding)) * self.rounding + self.rounding // 2
         key = (cx, cy)
         mog = self.cache.get(key, None)
         if mog is not None:
-- 
2.43.0


From ce76653d372f3617910f943dcb084a5378c37997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 095/110] fix: GaussianMixturePSF.fromStamp takes the previous
 fit as a starting point, without overwriting it

---
 tractor/psf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 5e9296b..51e94c9 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -547,7 +547,8 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
                   emsteps=1000, v2=False, approx=1e-30,
                   v3=False):
         '''
-        optional P0 = (w,mu,var): initial parameter guess.
+        optional P0 = (w,mu,var): initial parameter guess, or the
+        list of floats returned by getParams().
 
         w has shape (N,)
         mu has shape (N,2)
@@ -558,7 +559,12 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         from tractor.emfit import em_fit_2d_reg
         from tractor.fitpsf import em_init_params
         if P0 is not None:
-            w, mu, var = P0
+            if len(P0) != 3:
+                # parameters of a GaussianMixturePSF
+                mog = GaussianMixturePSF(*P0).mog
+                P0 = mog.amp, mog.mean, mog.var
+            # (copies: the fit works in place)
+            w, mu, var = [np.array(x).astype(float) for x in P0]
         else:
             w, mu, var = em_init_params(N, None, None, None)
         stamp = stamp.copy()
-- 
2.43.0


From 61b063f13a615127df3e27b473bb87b5674bc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:58 +0000
Subject: [PATCH 096/110] fix: EM fitting leaked its arrays and left the
 caller's locked when their shapes do not match

---
 tractor/emfit.i  | 14 +++++++++-----
 tractor/emfit2.c |  6 ++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/tractor/emfit.i b/tractor/emfit.i
index 43223c6..9b5d8f8 100644
--- a/tractor/emfit.i
+++ b/tractor/emfit.i
@@ -95,11 +95,13 @@ static int em_fit_1d_samples_reg(PyObject* po_x,
     // printf("K=%i\n", K);
     if (PyArray_DIM(np_mean, 0) != K) {
         ERR("np_mean must have len K");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     if (PyArray_DIM(np_var, 0) != K) {
         ERR("np_var must have len K");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     N = PyArray_DIM(np_x, 0);
     amp  = PyArray_DATA(np_amp);
@@ -212,7 +214,7 @@ static int em_fit_1d_samples_reg(PyObject* po_x,
     }
     result = 0;
         
-    //cleanup:
+ cleanup:
     free(Z);
     free(scale);
     free(ivar);
@@ -340,13 +342,15 @@ static int em_fit_2d_reg(PyObject* po_img, int x0, int y0,
     if ((PyArray_DIM(np_mean, 0) != K) ||
         (PyArray_DIM(np_mean, 1) != D)) {
         ERR("np_mean must be K x D");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     if ((PyArray_DIM(np_var, 0) != K) ||
         (PyArray_DIM(np_var, 1) != D) ||
         (PyArray_DIM(np_var, 2) != D)) {
         ERR("np_var must be K x D x D");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     NY = PyArray_DIM(np_img, 0);
     NX = PyArray_DIM(np_img, 1);
diff --git a/tractor/emfit2.c b/tractor/emfit2.c
index 6f69e5a..5fc7670 100644
--- a/tractor/emfit2.c
+++ b/tractor/emfit2.c
@@ -72,13 +72,15 @@ static int em_fit_2d_reg2(PyObject* po_img, int x0, int y0,
     if ((PyArray_DIM(np_mean, 0) != K) ||
         (PyArray_DIM(np_mean, 1) != D)) {
         ERR("np_mean must be K x D");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     if ((PyArray_DIM(np_var, 0) != K) ||
         (PyArray_DIM(np_var, 1) != D) ||
         (PyArray_DIM(np_var, 2) != D)) {
         ERR("np_var must be K x D x D");
-        return -1;
+        result = -1;
+        goto cleanup;
     }
     NY = PyArray_DIM(np_img, 0);
     NX = PyArray_DIM(np_img, 1);
-- 
2.43.0


From 9e05f78d5593419b8f76f85ac1e53a55cfd93870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:31 +0000
Subject: [PATCH 097/110] fix: frozen calibration parameters were left out of
 FITS headers

---
 tractor/ducks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/ducks.py b/tractor/ducks.py
index ead6153..f989dda 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -163,6 +163,9 @@ class ImageCalibration(object):
     def toFitsHeader(self, hdr, prefix=''):
         params = self.getAllParams()
         names = self.getParamNames()
+        if len(names) != len(params):
+            # frozen parameters have no names; write their values anyway.
+            names = ['param%i' % i for i in range(len(params))]
         for i,(name,val) in enumerate(zip(names, params)):
             k = prefix + 'P%i' % i
             hdr.add_record(dict(name=k, value=val, comment=name))
-- 
2.43.0


From ed50c349ee2e1eccd7f1e84722ffee60fc316962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:31 +0000
Subject: [PATCH 098/110] fix: NullWCS offsets and pixel scale were lost in
 FITS headers

---
 tractor/wcs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 90379c5..e839d46 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -25,6 +25,12 @@ class NullWCS(BaseParams, ducks.WCS):
     def copy(self):
         return self.__class__(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
 
+    def toFitsHeader(self, hdr, prefix=''):
+        # constructor arguments, see ImageCalibration.fromFitsHeader
+        for i,(name,val) in enumerate([('pixscale', self.pixscale),
+                                       ('dx', self.dx), ('dy', self.dy)]):
+            hdr.add_record(dict(name=prefix + 'A%i' % i, value=val, comment=name))
+
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
         self.cd = np.array([[1., 0.], [0., 1.]]) *  self.pixscale / 3600.
-- 
2.43.0


From fbdc81b2e5c01e89d70f3be98e85bb775c3f1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:32 +0000
Subject: [PATCH 099/110] fix: tractor.symmetric_integral_image could not be
 imported

---
 tractor/symmetric_integral_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/symmetric_integral_image.py b/tractor/symmetric_integral_image.py
index fe698d7..861d7c4 100644
--- a/tractor/symmetric_integral_image.py
+++ b/tractor/symmetric_integral_image.py
@@ -2,7 +2,7 @@
 from __future__ import print_function
 
 from numpy import *
-from integral_image import intimg_rect
+from tractor.integral_image import intimg_rect
 
 import unittest
 
-- 
2.43.0


From 9e06d7a4fc9a7dc7a922ed02fac2a9654bde10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:32 +0000
Subject: [PATCH 100/110] fix: Image.hashkey includes the time (models of
 moving sources depend on it)

---
 tractor/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/image.py b/tractor/image.py
index 720e92b..1fe4f7f 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -160,7 +160,8 @@ class Image(MultiParams):
     def hashkey(self):
         return ('Image', id(self.data), id(self.inverr), self.psf.hashkey(),
                 self.sky.hashkey(), self.wcs.hashkey(),
-                self.photocal.hashkey())
+                self.photocal.hashkey(),
+                None if self.time is None else self.time.hashkey())
 
     def numberOfPixels(self):
         (H, W) = self.data.shape
-- 
2.43.0


From d6f295d304df773383a6b5871b19de29d4de93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:32 +0000
Subject: [PATCH 101/110] fix: MovingPointSource.hashkey includes the epoch

---
 tractor/motion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index 24a98fc..b365f2d 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -77,6 +77,12 @@ class MovingPointSource(PointSource):
         c.minRadius = self.minRadius
         return c
 
+    def hashkey(self):
+        epoch = self.epoch
+        if hasattr(epoch, 'hashkey'):
+            epoch = epoch.hashkey()
+        return super(MovingPointSource, self).hashkey() + (epoch,)
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightness=1, pm=2, parallax=3)
-- 
2.43.0


From 0b292091c02e87cd641b50e3fdab3b0a84c2eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:56 +0000
Subject: [PATCH 102/110] fix: SplineSky FITS tables truncated control-point
 positions to integers

---
 tractor/splinesky.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 5abaaaa..459c75a 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -217,10 +217,14 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         T.skyclass = np.array([sky_type])
         T.gridw = np.atleast_1d(self.W).astype(np.int32)
         T.gridh = np.atleast_1d(self.H).astype(np.int32)
-        T.xgrid = np.atleast_2d(self.xgrid).astype(np.int32)
-        T.ygrid = np.atleast_2d(self.ygrid).astype(np.int32)
-        T.x0 = np.atleast_1d(self.x0).astype(np.int32)
-        T.y0 = np.atleast_1d(self.y0).astype(np.int32)
+        def to_int(x):
+            # integers, if that does not change the values.
+            ix = x.astype(np.int32)
+            return ix if np.all(ix == x) else x
+        T.xgrid = to_int(np.atleast_2d(self.xgrid))
+        T.ygrid = to_int(np.atleast_2d(self.ygrid))
+        T.x0 = to_int(np.atleast_1d(self.x0))
+        T.y0 = to_int(np.atleast_1d(self.y0))
         gridvals = self.get_grid()
         T.gridvals = np.array([gridvals]).astype(np.float32)
         T.order = np.atleast_1d(self.order).astype(np.uint8)
-- 
2.43.0


From 8f868514dde21668696942e3009ce233db9b1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 103/110] fix: Ceres optimization with numeric derivatives and
 variance left the parameters at a differencing step

---
 tractor/ceres-tractor.cc |  2 ++
 tractor/ceres.i          | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index 5141c77..b3255af 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -188,6 +188,7 @@ ImageCostFunction::ImageCostFunction(PyObject* tractor,
     _tractor(tractor), _imagei(imagei), _image(NULL),
     _npix(0), _nparams(nparams), _W(0), _H(0), _np_params(np_params) {
 
+    Py_INCREF(_np_params);
     _image = PyObject_CallMethod(_tractor, (char*)"getImage",
                                  (char*)"i", _imagei);
     PyObject* ret;
@@ -212,6 +213,7 @@ ImageCostFunction::ImageCostFunction(PyObject* tractor,
 
 ImageCostFunction::~ImageCostFunction() {
     Py_XDECREF(_image);
+    Py_DECREF(_np_params);
 }
 
 bool ImageCostFunction::Evaluate(double const* const* parameters,
diff --git a/tractor/ceres.i b/tractor/ceres.i
index e5a99f9..ebbc898 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -424,9 +424,16 @@ static PyObject* ceres_opt(PyObject* tractor,
     for (i=0; i<nparams; i++)
         allparams.push_back(params + i);
 
+    // The cost functions write the parameters they are evaluated at into
+    // an array of their own, not into "params", which is Ceres' result
+    // (computing the variance with numeric derivatives would change it).
+    PyArrayObject* np_eval = (PyArrayObject*)PyArray_NewCopy(np_params, NPY_CORDER);
+    if (!np_eval)
+        return NULL;
+
     for (i=0; i<nims; i++) {
         ImageCostFunction* icf = new ImageCostFunction
-            (tractor, i, nparams, np_params);
+            (tractor, i, nparams, np_eval);
         CostFunction* cost = NULL;
         if (numeric) {
 #if ( ((CERES_VERSION_MAJOR == 1) && (CERES_VERSION_MINOR >= 12)) || \
@@ -455,6 +462,8 @@ static PyObject* ceres_opt(PyObject* tractor,
         problem.AddResidualBlock(cost, NULL, allparams);
         //problem.AddResidualBlock(cost, NULL, params);
     }
+    // (the cost functions hold references)
+    Py_DECREF(np_eval);
 
     if (gaussian_priors != Py_None) {
         if (!PyList_Check(gaussian_priors)) {
-- 
2.43.0


From 5ac0505c149b8524f165ebfa378b8ca8a7264042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:24 +0000
Subject: [PATCH 104/110] fix: wrapped (shifted) varying PSFs failed with model
 masks and nested cutouts, and clipped sources to the wrong region

---
 tractor/shifted.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index adf96b3..10d6a15 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -88,12 +88,19 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
     def hashkey(self):
         return ('ShiftedPsf', self.x0, self.y0) + self.psf.hashkey()
 
+    def getShifted(self, x0, y0):
+        return ShiftedPsf(self.psf, self.x0 + x0, self.y0 + y0)
+
     def getPointSourcePatch(self, px, py, extent=None, derivs=False,
-                            modelMask=None, **kwargs):
+                            modelMask=None, clipExtent=None, **kwargs):
         if extent is not None:
             (ex0, ex1, ey0, ey1) = extent
-            extent = (ex0 + self.x0, ex1 + self.x0,
-                      ey0 + self.y0, ey1 + self.y0)
+            kwargs.update(extent=(ex0 + self.x0, ex1 + self.x0,
+                                  ey0 + self.y0, ey1 + self.y0))
+        if clipExtent is not None:
+            (cx0, cx1, cy0, cy1) = clipExtent
+            kwargs.update(clipExtent=[cx0 + self.x0, cx1 + self.x0,
+                                      cy0 + self.y0, cy1 + self.y0])
         mm = None
         if modelMask is not None:
             from .patch import ModelMask
@@ -105,7 +112,7 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
                                modelMask.mask)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
-                                         extent=extent, derivs=derivs,
+                                         derivs=derivs,
                                          modelMask=mm, **kwargs)
         # Now we have to shift the patch back too
         if p is None:
-- 
2.43.0


From 0da2272ff08a95caadcffc1a3aeeae45a3933556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 105/110] fix: LSQR forced photometry with priors ignored the
 priors when accepting the update

---
 tractor/lsqr_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 3115cb8..124ba98 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -234,7 +234,12 @@ class LsqrOptimizer(Optimizer):
 
         lnp = 0.
         if priors:
+            # evaluate the prior at the trial fluxes
+            flux0 = tractor.catalog.getParams()
+            tractor.catalog.setParams(pa if minFlux is None else
+                                      [max(minFlux, p) for p in pa])
             lnp += tractor.getLogPrior()
+            tractor.catalog.setParams(flux0)
             if not np.isfinite(lnp):
                 return lnp, None, None
 
-- 
2.43.0


From 5533fd39fc49d6da61c3b6e5fd472cb70604b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:38 +0000
Subject: [PATCH 106/110] fix: Ceres optimization of image parameters failed on
 a tractor with rendering options

---
 tractor/ceres_optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 2c033e5..18627b8 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -171,8 +171,7 @@ class CeresOptimizer(Optimizer):
             for i in tractor.images.getThawedParamIndices():
                 if i == imgi:
                     # Give the image a chance to compute its own derivs
-                    derivs = img.getParamDerivatives(tractor, cat,
-                                                     **tractor.model_kwargs)
+                    derivs = img.getParamDerivatives(tractor, cat)
                     needj = []
                     for j, deriv in enumerate(derivs):
                         if deriv is None:
-- 
2.43.0


From d2fa69ff499892bce8bb418a37e10d8e1c7037fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:45 +0000
Subject: [PATCH 107/110] fix: NCircularGaussianPSF did not normalize its
 weights, so the PSF did not have unit mass

---
 tractor/psf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 51e94c9..d58757c 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -881,7 +881,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
                                     self.myweights)
 
     def getMixtureOfGaussians(self, px=None, py=None):
-        amps = tuple(self.myweights)
+        wsum = sum(self.myweights)
+        amps = tuple(w / wsum for w in self.myweights)
         sigs = tuple(self.mysigmas)
         return getCircularMog(amps, sigs)
 
-- 
2.43.0


From 5e82e4fad354d77241419e964503dec90a9db1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:06 +0000
Subject: [PATCH 108/110] fix: optimize(just_variance=True) without
 variance=True moved the parameters and returned no variance

---
 tractor/lsqr_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 124ba98..b2d1fc0 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -288,6 +288,8 @@ class LsqrOptimizer(Optimizer):
                  scale_columns=True,
                  shared_params=True, variance=False, just_variance=False,
                  **nil):
+        if just_variance:
+            variance = True
         kwa = dict(damp=damp, priors=priors,
                    scale_columns=scale_columns, shared_params=shared_params,
                    variance=variance)
-- 
2.43.0


From e7fd7c8af581f84f2269074b80d2e25992402712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 109/110] fix: Ceres reports variances also when the dlnp
 criterion stops the fit

---
 tractor/ceres.i | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index ebbc898..78965bd 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -599,7 +599,9 @@ static PyObject* ceres_opt(PyObject* tractor,
     //printf("%s\n", summary.BriefReport().c_str());
     //printf("%s\n", summary.FullReport().c_str());
 
-    if (get_variance && (summary.termination_type == ceres::CONVERGENCE)) {
+    // (the Dlnp callback stops with USER_SUCCESS)
+    if (get_variance && ((summary.termination_type == ceres::CONVERGENCE) ||
+                         (summary.termination_type == ceres::USER_SUCCESS))) {
         if (!PyArray_Check(py_variance)) {
             printf("ceres_opt: variance must be a numpy array\n");
             return NULL;
-- 
2.43.0


From 3116278ce2b07973ced160053a499fb70e3de227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:10 +0000
Subject: [PATCH 110/110] fix: keep the model settings of a tractor when
 copying it

---
 tractor/engine.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tractor/engine.py b/tractor/engine.py
index e3002fa..d7f0a52 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -180,6 +180,19 @@ class Tractor(MultiParams):
              self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
+    def copy(self):
+        cop = super(Tractor, self).copy()
+        cop.modtype = self.modtype
+        cop.optimizer = self.optimizer
+        cop.model_kwargs = self.model_kwargs.copy()
+        if self.modelMasks is not None:
+            # the masks are looked up by source
+            srcs = dict(zip(self.catalog, cop.catalog))
+            cop.modelMasks = [dict((srcs.get(s, s), m) for s, m in masks.items())
+                              for masks in self.modelMasks]
+        cop.expectModelMasks = self.expectModelMasks
+        return cop
+
     def getNImages(self):
         return len(self.images)
 
-- 
2.43.0

