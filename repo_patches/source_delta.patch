From 13b99d8f7c9a56049db8aa91c06061a7d2d6ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 01/15] fix: give each tract its own patch grid

All tracts of a sky map shared one tract builder, which holds the number of
patches and bounding box of the tract it was last set up for.  Generating a
tract changed the patches of every other tract of a different size (discrete
and healpix sky maps), up to making register fail with IndexError.
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..9e23cc8 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder remembers the patch grid of the tract it was last set up
+        # for, so a builder that is shared with other tracts must be copied.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From a913da0411f2c959a735c7832727a249afaa54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 02/15] fix: hand out one object per tract when threads share a
 sky map

Two threads asking a caching sky map for the same tract for the first time got
different TractInfo objects.  Tracts compare by identity, so look-ups that mixed
the two listed the tract twice.
---
 python/lsst/skymap/cachingSkyMap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index 1b0ea48..2baac51 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,8 @@
 
 __all__ = ["CachingSkyMap"]
 
+import threading
+
 from .baseSkyMap import BaseSkyMap
 
 
@@ -52,6 +54,7 @@ class CachingSkyMap(BaseSkyMap):
         super(CachingSkyMap, self).__init__(config)
         self._numTracts = numTracts
         self._tractCache = [None] * self._numTracts
+        self._tractCacheLock = threading.Lock()
         self._tractInfo = None  # We shouldn't need this; we will generate tracts on demand
         self._version = version
 
@@ -88,8 +91,12 @@ class CachingSkyMap(BaseSkyMap):
         if self._tractCache[index] is not None:
             return self._tractCache[index]
         tract = self.generateTract(index)
-        self._tractCache[index] = tract
-        return tract
+        with self._tractCacheLock:
+            # Another thread may have generated the same tract meanwhile; all
+            # must get the same object because tracts compare by identity.
+            if self._tractCache[index] is None:
+                self._tractCache[index] = tract
+            return self._tractCache[index]
 
     def generateTract(self, index):
         """Generate TractInfo for the specified tract index."""
-- 
2.43.0


From 797218b9dc99df89ba5c455f637d7891a885b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 03/15] fix: do not hand out the tract builder's own patch
 dimensions

getPatchInnerDimensions returned the mutable Extent2I that the tract builder
computes patches with, so a caller that modified it in place changed the
patches of the sky map.
---
 python/lsst/skymap/tractBuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..cb9fbb4 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,8 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        # Extents are mutable: callers must not get ours.
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
-- 
2.43.0


From 176890f473fb6dd2ed8e885a9671a5341f1bfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 04/15] fix: skip coordinates with no finite pixel position in
 findPatchList

---
 python/lsst/skymap/tractInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index 9e23cc8..a41f200 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -258,6 +258,9 @@ class TractInfo:
                 # The point is so far off the tract that its pixel position
                 # cannot be computed.
                 continue
+            if not np.isfinite(pixelPos.getX()) or not np.isfinite(pixelPos.getY()):
+                # Point is definitely off the tract
+                continue
             box2D.include(pixelPos)
         bbox = geom.Box2I(box2D)
         bbox.grow(self.getPatchBorder())
-- 
2.43.0


From a30036c13940791f94e87a03b839f73ae9075901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 05/15] fix: clip in floating point before making an integer
 box in findPatchList

---
 python/lsst/skymap/tractInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index a41f200..a241680 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -262,6 +262,11 @@ class TractInfo:
                 # Point is definitely off the tract
                 continue
             box2D.include(pixelPos)
+        # Positions far off the tract may not fit in an integer box: clip
+        # first, leaving all that the final clip needs to see.
+        limits = geom.Box2D(self._bbox)
+        limits.grow(self.getPatchBorder() + 1)
+        box2D.clip(limits)
         bbox = geom.Box2I(box2D)
         bbox.grow(self.getPatchBorder())
         bbox.clip(self._bbox)
-- 
2.43.0


From ed253f6f532f57985331dd6078067a98caf8012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 06/15] fix: refuse unknown rings versions under python -O as
 well

---
 python/lsst/skymap/ringsSkyMap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..a45c463 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -77,7 +77,8 @@ class RingsSkyMap(CachingSkyMap):
     _version = (1, 0)  # for pickle
 
     def __init__(self, config, version=1):
-        assert version in (0, 1), "Unrecognised version: %s" % (version,)
+        if version not in (0, 1):
+            raise RuntimeError("Unrecognised version: %s" % (version,))
         # We count rings from south to north
         # Note: pole caps together count for one additional ring when
         # calculating the ring size.
-- 
2.43.0


From b3d09977b6b19b3659074744677be6ebccb1d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 07/15] fix: unpack bands by the integers the mapping gives
 them

---
 python/lsst/skymap/packers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..76ba227 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-        self._bands_list = None
+        self._bands_by_index = None
 
     @classmethod
     def make_config_field(
@@ -269,8 +269,10 @@ class SkyMapDimensionPacker(DimensionPacker):
         d = {"skymap": self.fixed["skymap"]}
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
-            if self._bands_list is None:
-                self._bands_list = list(self._bands)
-            d["band"] = self._bands_list[index]
+            if self._bands_by_index is None:
+                # Neither the order of the mapping nor its values being
+                # contiguous may be relied upon.
+                self._bands_by_index = {i: band for band, i in self._bands.items()}
+            d["band"] = self._bands_by_index[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 3bd171c9c234e014b908ab7aa0967d5af8e934f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 08/15] fix: reject negative tract and patch IDs when packing

---
 python/lsst/skymap/packers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 76ba227..6ef3506 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
-- 
2.43.0


From d5769a21b811acbd6c115ef40979d8b1352044f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 09/15] fix: keep plain integer IDs for cached tracts

A tract first asked for with a numpy integer (HealpixSkyMap.findTract does
so) was cached with that integer as its ID, and register() then wrote the ID
to SQLite as an 8-byte blob.
---
 python/lsst/skymap/cachingSkyMap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index 2baac51..e592d15 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,7 @@
 
 __all__ = ["CachingSkyMap"]
 
+import operator
 import threading
 
 from .baseSkyMap import BaseSkyMap
@@ -86,6 +87,9 @@ class CachingSkyMap(BaseSkyMap):
         The tract is returned from a cache, if available, otherwise generated
         on the fly.
         """
+        # The first index asked for becomes the ID of the cached tract, so do
+        # not keep e.g. a numpy integer, which databases store as bytes.
+        index = operator.index(index)
         if index < 0 or index > self._numTracts:
             raise IndexError("Index out of range: %d vs %d" % (index, self._numTracts))
         if self._tractCache[index] is not None:
-- 
2.43.0


From 22fe356ac2783b401d0f5cf5ce42ca2dce222d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 10/15] fix: reject bands mapped to negative integers when
 packing

The band of a mapping such as {'g': -1} passed the bound check and gave a
negative packed ID.
---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 6ef3506..5ca8282 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From fbf2ce58f601e495daff5ceba967acb8f4ed6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:54 +0000
Subject: [PATCH 11/15] fix: keep a packer's band table apart from the caller's
 mapping

---
 python/lsst/skymap/packers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 5ca8282..41812d7 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -173,7 +173,8 @@ class SkyMapDimensionPacker(DimensionPacker):
                 * fixed.records["skymap"].patch_ny_max
             )
         super().__init__(fixed, dimensions)
-        self._bands = bands
+        # The caller's mapping (or that of a config) may change later on.
+        self._bands = dict(bands)
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-- 
2.43.0


From d9c418ca69f05e33dcea966b0f21ecfe091cd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:54 +0000
Subject: [PATCH 12/15] fix: refuse to pack bands with no room for them

---
 python/lsst/skymap/packers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 41812d7..715de91 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -165,6 +165,10 @@ class SkyMapDimensionPacker(DimensionPacker):
                     )
                 if n_bands is None:
                     n_bands = len(bands)
+                elif n_bands == 0:
+                    raise ValueError(
+                        f"Invalid n_bands=0 for skymap dimension packer with dimensions {dimensions}."
+                    )
         if n_tracts is None:
             n_tracts = fixed.records["skymap"].tract_max
         if n_patches is None:
-- 
2.43.0


From 95baafacc22852e73d7c1fe8d3692121436c5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:20 +0000
Subject: [PATCH 13/15] fix: refuse to pack bands when an empty mapping leaves
 no room for them

---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 715de91..e6c8653 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -165,7 +165,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     )
                 if n_bands is None:
                     n_bands = len(bands)
-                elif n_bands == 0:
+                if n_bands == 0:
                     raise ValueError(
                         f"Invalid n_bands=0 for skymap dimension packer with dimensions {dimensions}."
                     )
-- 
2.43.0


From 4e5da9037a0bdc0ac14df5239e3089a70308ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:14 +0000
Subject: [PATCH 14/15] fix: accept patch and cell indices in integers of
 limited range

---
 python/lsst/skymap/patchInfo.py    | 6 ++++++
 python/lsst/skymap/tractBuilder.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..d3cbe53 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -23,6 +23,7 @@
 __all__ = ["PatchInfo"]
 
 import numbers
+import operator
 from collections.abc import Iterable
 
 from lsst.geom import Extent2I, Point2I, Box2I
@@ -234,6 +235,8 @@ class PatchInfo:
                 _index = self.getCellIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # The integers may be of a type that cannot hold what follows from them.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numCells.x) \
                 or (not 0 <= _index.y < self._numCells.y):
             raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" %
@@ -307,6 +310,8 @@ class PatchInfo:
             _index = index
         else:
             _index = Index2D(*index)
+        # The integers may be of a type that cannot hold what follows from them.
+        _index = Index2D(*map(operator.index, _index))
         nx, ny = self.getNumCells()
         return nx*_index.y + _index.x
 
@@ -330,6 +335,7 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        sequentialIndex = operator.index(sequentialIndex)
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index cb9fbb4..1528b8a 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -25,6 +25,7 @@ __all__ = ["tractBuilderRegistry",
 
 import abc
 import numbers
+import operator
 import struct
 from collections.abc import Iterable
 
@@ -162,6 +163,8 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
             if len(index) != 2:
                 raise ValueError("Input index does not have two values.")
             _index = Index2D(*index)
+        # The integers may be of a type that cannot hold what follows from them.
+        _index = Index2D(*map(operator.index, _index))
         nx, ny = self._numPatches
         return nx*_index.y + _index.x
 
@@ -177,6 +180,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         x, y : `lsst.skymap.Index2D`
         """
         nx, ny = self._numPatches
+        sequentialIndex = operator.index(sequentialIndex)
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
@@ -232,6 +236,8 @@ class LegacyTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # The integers may be of a type that cannot hold what follows from them.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
@@ -329,6 +335,8 @@ class CellTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # The integers may be of a type that cannot hold what follows from them.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
-- 
2.43.0


From 683ffa9ee3503970e28ea5fe5fea1d99c3a677b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:14 +0000
Subject: [PATCH 15/15] fix: look up single-precision arrays as precisely as
 findTract does

---
 python/lsst/skymap/ringsSkyMap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index a45c463..8d38e7d 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -261,12 +261,12 @@ class RingsSkyMap(CachingSkyMap):
         return self[index]
 
     def findTractIdArray(self, ra, dec, degrees=False):
+        # Whatever the type of the input, work in the precision of findTract.
+        _ra = np.atleast_1d(np.asarray(ra, dtype=np.float64))
+        _dec = np.atleast_1d(np.asarray(dec, dtype=np.float64))
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
-        else:
-            _ra = np.atleast_1d(ra)
-            _dec = np.atleast_1d(dec)
+            _ra = np.deg2rad(_ra)
+            _dec = np.deg2rad(_dec)
 
         # Set default to -1 to distinguish from polar tracts
         indexes = np.full(_ra.size, -1, dtype=np.int32)
-- 
2.43.0

