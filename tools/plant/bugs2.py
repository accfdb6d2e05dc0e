BUGS = []
def bug(**k): BUGS.append(k)

# ---- C04
bug(id="c04-reduce-sparse", prop="C04",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        # Old readers need not know about new fields with default values.
        values = {n: v for n, v in self.config.toDict().items() if n != "tractBuilder" and v}
        builder = self.config.tractBuilder.name
        values[builder] = {n: v for n, v in self.config.tractBuilder[builder].toDict().items() if v}
        return (_restore, (self.__class__, builder, values, self._version))
'''), ("cachingSkyMap.py", '''class CachingSkyMap(BaseSkyMap):
''', '''def _restore(cls, builder, values, version):
    """Make the sky map that was saved."""
    config = cls.ConfigClass()
    config.tractBuilder = builder
    config.tractBuilder[builder].update(**values.pop(builder))
    config.update(**values)
    return cls(config, version=version)


class CachingSkyMap(BaseSkyMap):
''')],
 demo='''
from kit import *
import pickle
for kw in (dict(border=20), dict(border=0), dict(border=10, tractOverlap=0.0), dict(cells=dict(CELLS, cellBorder=0))):
    a = discrete(**kw)
    b = pickle.loads(pickle.dumps(a))
    check(a == b, "restored map differs for %s" % (kw,))
    for s, t in zip(a, b):
        check(s.getBBox() == t.getBBox(), "tract differs")
        check([box(p.getOuterBBox()) for p in s] == [box(p.getOuterBBox()) for p in t], "patches differ")
''', needs="a setting that is zero where the default is not (border, overlap, healpix rotation)", what="the restored map has the default instead")

bug(id="c04-equat-restore-memo", prop="C04",
 edits=[("equatSkyMap.py", '''        self.__init__(stateDict["config"])
''', '''        config = stateDict["config"]
        # Processes restore the same map once per task: do not project again.
        key = (config.numTracts, tuple(config.decRange), config.pixelScale, config.projection,
               config.rotation, config.tractOverlap, config.tractBuilder.name)
        if key not in self._restored:
            self.__init__(config)
            self._restored[key] = self.__dict__
        self.__dict__ = dict(self._restored[key], config=config)
'''), ("equatSkyMap.py", '''    _version = (1, 0)  # for pickle
''', '''    _version = (1, 0)  # for pickle
    _restored = {}
''')],
 demo='''
from kit import *
import pickle
a, b = equat(border=20), equat(border=30)
for m in (a, b, a, b):
    n = pickle.loads(pickle.dumps(m))
    check(n[1].getPatchBorder() == m[1].getPatchBorder() and n == m, "the restored map has another map's patches")
''', needs="two equatorial maps restored in one process that differ in the patch layout only", what="the second restored map has the first one's tracts")

bug(id="c04-copy-midway", prop="C04",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        # Tracts are expensive: take along those that exist already.
        tracts = [t for t in self._tractCache if t is not None]
        return (self.__class__, (self.config, self._version), {"_tractCache": tracts or None})

    def __setstate__(self, state):
        tracts = state["_tractCache"]
        if tracts and len(tracts) == tracts[-1].getId() + 1:
            self._tractCache[:len(tracts)] = tracts
        elif tracts:
            for n, t in enumerate(tracts):
                self._tractCache[tracts[0].getId() + n] = t
''')],
 demo='''
from kit import *
import copy
a = discrete()
a[0], a[2]
b = copy.copy(a)
check([t.getId() for t in b] == [0, 1, 2], "the copy's tracts are %s" % ([t.getId() for t in b],))
''', needs="a copy or save of a map of which a non-contiguous set of tracts was generated", what="the copy's tracts are mixed up")

# ---- C05
bug(id="c05-version-falsy", prop="C05",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        args = (self.config,)
        if self._version:
            args += (self._version,)
        return (self.__class__, args)
''')],
 demo='''
from kit import *
import pickle
a = rings(version=0)
b = pickle.loads(pickle.dumps(a))
for i in range(len(a)):
    check(a[i].getCtrCoord() == b[i].getCtrCoord(), "tract %d of the legacy map moved" % i)
''', needs="a rings map with the legacy numbering that is saved and restored", what="turns into the current numbering")

bug(id="c05-dodeca-once", prop="C05",
 edits=[("dodecaSkyMap.py", '''        if version >= (2, 0):
            raise''', '''        if version >= (2, 0) and version not in self._refused:
            self._refused.add(version)
            raise'''), ("dodecaSkyMap.py", '''    _version = (1, 0)  # for pickle
''', '''    _version = (1, 0)  # for pickle
    _refused = set()
''')],
 demo='''
from kit import *
a = dodeca()
s = dict(a.__getstate__(), version=(2, 1))
for k in range(3):
    b = DodecaSkyMap.__new__(DodecaSkyMap)
    try:
        b.__setstate__(s)
    except RuntimeError:
        continue
    fail("a newer format was accepted, on attempt %d" % k)
''', needs="two attempts to load the same too-new format in one process", what="the second attempt is accepted")

bug(id="c05-equat-bound", prop="C05",
 edits=[("equatSkyMap.py", "        if version >= (2, 0):", "        if version[0] > 2 or (version[0] == 2 and version[1] > 0):")],
 demo='''
from kit import *
a = equat()
for v in ((2, 0), (2, 1), (3, 0)):
    b = EquatSkyMap.__new__(EquatSkyMap)
    try:
        b.__setstate__(dict(a.__getstate__(), version=v))
    except RuntimeError:
        continue
    fail("format %s was accepted" % (v,))
''', needs="a saved form of exactly the next format version (2, 0)", what="accepted instead of refused")

# ---- C06
bug(id="c06-cheap-hash", prop="C06",
 edits=[("baseSkyMap.py", '''        return hash(self.getSha1())
''', '''        if self._sha1 is None:      # cheap for maps that are not compared
            return hash((type(self).__name__, len(self)))
        return hash(self._sha1)
''')],
 demo='''
from kit import *
a = discrete(); b = discrete()
h = hash(a)
check(a == b, "equal")
check(hash(a) == h, "the hash changed")
c = discrete()
check(c == a and hash(c) == hash(a), "equal maps hash differently")
''', needs="hash asked both before and after the digest was first needed", what="hash changes during life; equal maps hash differently")

bug(id="c06-sorted-dims", prop="C06",
 edits=[("tractBuilder.py", '''            subConfig.patchInnerDimensions[0],
            subConfig.patchInnerDimensions[1],
''', '''            *sorted(subConfig.patchInnerDimensions),
''')],
 demo='''
from kit import *
a, b = discrete(inner=(200, 300)), discrete(inner=(300, 200))
check(a != b and a.getSha1() != b.getSha1(), "maps with different patches are equal")
''', needs="two maps whose patch dimensions are swapped", what="they compare equal")

bug(id="c06-rings-float", prop="C06",
 edits=[("ringsSkyMap.py", '''struct.pack("<id", self.config.numRings''', '''struct.pack("<if", self.config.numRings''')],
 demo='''
from kit import *
a, b = rings(raStart=200.0), rings(raStart=200.000001)
check(a != b, "maps with different raStart are equal")
''', needs="two rings maps whose raStart differs by less than single precision", what="they compare equal")

# ---- C07
bug(id="c07-patch-cache", prop="C07",
 edits=[("tractInfo.py", '''        return self._tractBuilder.getPatchInfo(index, self._wcs)
''', '''        if isinstance(index, Index2D):
            if index not in self._patches:
                self._patches[index] = self._tractBuilder.getPatchInfo(index, self._wcs)
            return self._patches[index]
        return self._tractBuilder.getPatchInfo(index, self._wcs)
'''), ("tractInfo.py", '''        minBBox = self._minimumBoundingBox(wcs)
        initialBBox''', '''        self._patches = {}
        minBBox = self._minimumBoundingBox(wcs)
        initialBBox''')],
 demo='''
from kit import *
t = discrete()[0]
p = next(iter(t))
want = box(p.getOuterBBox())
p.getOuterBBox().grow(5)
check(box(next(iter(t)).getOuterBBox()) == want, "a caller's grown box changed the tract's patch")
''', needs="a caller growing the box of a patch obtained by Index2D or iteration", what="the tract's patch changes for everyone")

bug(id="c07-idarray-memo", prop="C07",
 edits=[("ringsSkyMap.py", '''        if degrees:
            _ra = np.deg2rad(ra)''', '''        if self._lastArrays is not None and self._lastArrays[0] is ra and self._lastArrays[1] is dec \\
                and self._lastArrays[2] == degrees:
            return self._lastArrays[3].copy()
        if degrees:
            _ra = np.deg2rad(ra)'''), ("ringsSkyMap.py", '''        return indexes

    def findAllTracts''', '''        self._lastArrays = (ra, dec, degrees, indexes.copy())
        return indexes

    def findAllTracts'''), ("ringsSkyMap.py", '''        self._raStart = self.config.raStart*geom.degrees
''', '''        self._raStart = self.config.raStart*geom.degrees
        self._lastArrays = None
''')],
 demo='''
from kit import *
import numpy as np
m = rings()
ra, dec = np.array([10.0, 20.0, 200.0]), np.array([0.0, 30.0, -40.0])
m.findTractIdArray(ra, dec, degrees=True)
ra += 100
got = list(m.findTractIdArray(ra, dec, degrees=True))
check(got == [m.findTract(sph(*k)).getId() for k in zip(ra, dec)], "stale answer for arrays changed in place")
''', needs="a caller that asks with the same array objects again after changing them in place", what="the answer for the old contents")

bug(id="c07-no-freeze", prop="C07",
 edits=[("baseSkyMap.py", '''            config = self.ConfigClass()
        config.freeze()  # just to be sure, e.g. for pickling
''', '''            config = self.ConfigClass()
            config.freeze()  # just to be sure, e.g. for pickling
''')],
 demo='''
from kit import *
c = config(DiscreteSkyMap, raList=[10.0], decList=[0.0], radiusList=[1.0])
m = DiscreteSkyMap(c)
n = DiscreteSkyMap(config(DiscreteSkyMap, raList=[10.0], decList=[0.0], radiusList=[1.0]))
try:
    c.tractOverlap = 3.0
except Exception:
    pass
check(m[0].getBBox() == n[0].getBBox() and m == n, "assigning to the configuration changed the map")
''', needs="a caller assigning to the configuration after building the map, before tracts are generated", what="the map changes")

bug(id="c07-cell-extent", prop="C07",
 edits=[("patchInfo.py", '''        self._cellInnerDimensions = Extent2I(*cellInnerDimensions)
''', '''        if not isinstance(cellInnerDimensions, Extent2I):
            cellInnerDimensions = Extent2I(*cellInnerDimensions)
        self._cellInnerDimensions = cellInnerDimensions
''')],
 demo='''
from kit import *
t = discrete(cells=CELLS)[0]
want = [box(c.getInnerBBox()) for c in t.getPatchInfo(0)]
e = t.getPatchInfo(0).getCellInnerDimensions()
e.setX(3)
check([box(c.getInnerBBox()) for c in t.getPatchInfo(0)] == want, "a caller's extent changed every patch's cells")
''', needs="a caller modifying the extent returned by getCellInnerDimensions", what="the cells of all patches of the tract change")

# ---- C08
bug(id="c08-clip-edge", prop="C08",
 edits=[("tractBuilder.py", '''        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)
''', '''        outerBBox.grow(self.getPatchBorder())
        if _index.x in (0, self._numPatches.x - 1) or _index.y in (0, self._numPatches.y - 1):
            outerBBox.clip(self._tractBBox)     # others cannot extend off the tract
''')],
 demo='''
from kit import *
t = discrete(inner=(30, 30), border=40)[0]
for p in t:
    check(t.getBBox().contains(p.getOuterBBox()), "patch %s extends off the tract" % (p.getIndex(),))
''', needs="a patch border larger than the inner dimensions, in a tract with at least 3x3 patches", what="outer regions extend off the tract")

bug(id="c08-wrap", prop="C08",
 edits=[("tractBuilder.py", '''        nx, ny = self._numPatches
        x = sequentialIndex % nx
        y = sequentialIndex // nx
        return Index2D(x=x, y=y)
''', '''        y, x = divmod(sequentialIndex, self._numPatches.x)
        if y == self._numPatches.y:
            y = 0       # one past the end, as in half-open ranges
        return Index2D(x=x, y=y)
''')],
 demo='''
from kit import *
t = discrete()[0]
nx, ny = t.getNumPatches()
for s in (nx*ny, nx*ny + 1, nx*ny + nx, -1):
    try:
        t.getPatchInfo(s)
    except IndexError:
        continue
    fail("patch %d of %d was found" % (s, nx*ny))
''', needs="a sequential index just past the last patch", what="a patch of the first row instead of IndexError")

bug(id="c08-seq-wide", prop="C08",
 edits=[("tractBuilder.py", '''        nx, ny = self._numPatches
        return nx*_index.y + _index.x
''', '''        nx = max(self._numPatches)  # leaves room for square maps of patches
        return nx*_index.y + _index.x
'''), ("tractBuilder.py", '''        nx, ny = self._numPatches
        x = sequentialIndex % nx
''', '''        nx = max(self._numPatches)
        x = sequentialIndex % nx
''')],
 demo='''
from kit import *
for kw in (dict(inner=(200, 200)), dict(inner=(300, 100)), dict(inner=(100, 300))):
    for t in discrete(**kw):
        nx, ny = t.getNumPatches()
        for n, p in enumerate(t):
            check(p.getSequentialIndex() == n == nx*p.getIndex()[1] + p.getIndex()[0], "sequential index")
''', needs="tracts with more patches in y than in x", what="sequential indices have gaps")

# ---- C09
bug(id="c09-cell-memo", prop="C09",
 edits=[("patchInfo.py", '''        if (not 0 <= _index.x < self._numCells.x) \\
                or (not 0 <= _index.y < self._numCells.y):
            raise IndexError("Cell''', '''        key = self.getSequentialCellIndexFromPair(_index)
        if key in self._cells:
            return self._cells[key]
        if (not 0 <= _index.x < self._numCells.x) \\
                or (not 0 <= _index.y < self._numCells.y):
            raise IndexError("Cell'''), ("patchInfo.py", '''        return CellInfo(
            index=_index,
            innerBBox=innerBBox,
            outerBBox=outerBBox,
            sequentialIndex=self.getSequentialCellIndexFromPair(_index),
            tractWcs=self._wcs
        )
''', '''        self._cells[key] = CellInfo(
            index=_index,
            innerBBox=innerBBox,
            outerBBox=outerBBox,
            sequentialIndex=key,
            tractWcs=self._wcs
        )
        return self._cells[key]
'''), ("patchInfo.py", '''        self._cellBorder = cellBorder
        self._numCells''', '''        self._cellBorder = cellBorder
        self._cells = {}
        self._numCells''')],
 demo='''
from kit import *
p = discrete(cells=CELLS)[0].getPatchInfo(0)
nx, ny = p.getNumCells()
p.getCellInfo((0, 1))
try:
    p.getCellInfo((nx, 0))
except IndexError:
    sys.exit(0)
fail("cell (%d, 0) was found" % nx)
''', needs="one patch object asked for cell (0, 1) and then for the out-of-range cell (nx, 0)", what="a cell instead of IndexError")

bug(id="c09-no-border-cells", prop="C09",
 edits=[("patchInfo.py", '''        nx, ny = self.getNumCells()
        x = sequentialIndex % nx
        y = sequentialIndex // nx
''', '''        nx = (self._innerBBox.getWidth() + 2*self._cellBorder)//self._cellInnerDimensions[0]
        if self._numCellsInPatchBorder != 1 or self._cellBorder == 0:
            nx = self._numCells.x
        x = sequentialIndex % nx
        y = sequentialIndex // nx
''')],
 demo='''
from kit import *
for b in (4, 20, 0):
    p = discrete(cells=dict(CELLS, cellBorder=b))[0].getPatchInfo(0)
    for n, c in enumerate(p):
        check(p.getCellInfo(n).getIndex() == c.getIndex() == p.getCellIndexPair(n), "cell %d" % n)
''', needs="one border cell and a cell border under half a cell", what="sequential cell index maps to another cell", up=False)

bug(id="c09-legacy-cells", prop="C09",
 edits=[("tractBuilder.py", '''            tractWcs=tractWcs,
            cellInnerDimensions=self._cellInnerDimensions,
            cellBorder=self._cellBorder,
            numCellsPerPatchInner=self._numCellsPerPatchInner,
            numCellsInPatchBorder=self._numCellsInPatchBorder
''', '''            tractWcs=tractWcs,
            cellInnerDimensions=self._cellInnerDimensions,
            cellBorder=self._cellBorder,
            numCellsPerPatchInner=self._numCellsPerPatchInner,
            # at the edge of the tract there is nothing beyond
            numCellsInPatchBorder=min(self._numCellsInPatchBorder, *self._numPatches)
''')],
 demo='''
from kit import *
m = discrete(cells=dict(CELLS, cellInnerDimensions=(60, 60), numCellsInPatchBorder=2))
for t in m:
    for p in t:
        check(tuple(p.getNumCells()) == (9, 9), "patch %s has %s cells" % (p.getIndex(), p.getNumCells()))
''', needs="a tract with fewer patches in one direction than border cells", what="border cells are missing")

# ---- C10
bug(id="c10-array-wrap", prop="C10",
 edits=[("ringsSkyMap.py", '''        # Allow wraparound
        tractNum[tractNum == _ringNumArray[ringNums[inRange]]] = 0
''', '''        # Allow wraparound
        tractNum[deltaWrap > 2.*np.pi - np.pi/_ringNumArray[ringNums[inRange]].max(initial=1)] = 0
''')],
 demo='''
from kit import *
import numpy as np
m = rings(numRings=4)
ra = np.arange(0, 360, 1.7); dec = np.linspace(-80, 80, len(ra))
for order in (slice(None), slice(None, None, -1)):
    a = m.findTractIdArray(ra, dec[order], degrees=True)
    check(list(a) == [m.findTract(sph(*k)).getId() for k in zip(ra, dec[order])], "array and scalar look-up differ")
''', needs="one array with coordinates in the last half tract of rings of different sizes", what="array look-up differs from the scalar one")

bug(id="c10-findpatch-half", prop="C10",
 edits=[("tractInfo.py", "patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))", "patchInd = tuple(int(pixel[i]/self.patch_inner_dimensions[i]) for i in range(2))")],
 demo='''
from kit import *
t = discrete(inner=(20, 20), border=3)[0]
w = t.getWcs()
for x in (19.2, 19.4, 19.6, 19.9, 20.1, 0.2, -0.4):
    c = w.pixelToSky(geom.Point2D(x, 10.0))
    q = geom.Point2I(w.skyToPixel(c))
    p = t.findPatch(c)
    check(p.getInnerBBox().contains(q), "patch found does not hold the pixel")
''', needs="a coordinate in the half pixel before a patch boundary", what="the neighbouring patch is found")

bug(id="c10-border-half", prop="C10",
 edits=[("tractInfo.py", '''        bbox = geom.Box2I(box2D)
        bbox.grow(self.getPatchBorder())
''', '''        bbox = geom.Box2I(box2D)
        # beyond the neighbours there is nothing to gain
        bbox.grow(min(self.getPatchBorder(), min(self.patch_inner_dimensions)))
''')],
 demo='''
from kit import *
t = discrete(inner=(20, 20), border=45)[0]
w = t.getWcs()
c = w.pixelToSky(geom.Point2D(50.0, 50.0))
got = {tuple(p.getIndex()) for p in t.findPatchList([c])}
want = {tuple(p.getIndex()) for p in t if p.getOuterBBox().contains(geom.Point2I(w.skyToPixel(c)))}
check(want <= got, "patches missing: %s" % sorted(want - got))
''', needs="a patch border larger than the patch", what="patches whose outer region holds the coordinate are missed")

bug(id="c10-region-memo", prop="C10",
 edits=[("baseSkyMap.py", '''        retList = []
        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList:
                retList.append((tractInfo, patchList))
        return retList
''', '''        self._found = []
        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList:
                self._found.append((tractInfo, patchList))
        return self._found
''')],
 demo='''
from kit import *
import threading
m = discrete(raList=[10.0, 10.5, 11.0], decList=[0.0, 0.2, 0.1])
from lsst.skymap.tractInfo import TractInfo
a, b = [sph(10.1, 0.1)], [sph(10.9, 0.1)]
want = [(t.getId(), len(p)) for t, p in m.findTractPatchList(a)]
real = TractInfo.findPatchList
state = []
def hooked(self, coords):
    if not state and threading.current_thread().name == "first":
        state.append(1)
        th = threading.Thread(target=lambda: m.findTractPatchList(b)); th.start(); th.join()
    return real(self, coords)
TractInfo.findPatchList = hooked
out = []
th = threading.Thread(target=lambda: out.append(m.findTractPatchList(a)), name="first"); th.start(); th.join()
check([(t.getId(), len(p)) for t, p in out[0]] == want, "two threads' region look-ups are mixed")
''', needs="two threads in findTractPatchList of one map at once", what="a tract is listed twice, or with the other region's patches")

# ---- C11
bug(id="c11-broad", prop="C11",
 edits=[("tractInfo.py", '''        try:
            pixel = self.getWcs().skyToPixel(coord)
        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            # Point must be way off the tract
            return False
''', '''        try:
            pixel = self.getWcs().skyToPixel(coord)
        except Exception:
            # Point must be way off the tract
            return False
''')],
 demo='''
from kit import *
t = discrete()[0]
class W:
    def skyToPixel(self, c): raise MemoryError("x")
t._wcs = W()
try:
    t.contains(sph(10, 0))
except MemoryError:
    sys.exit(0)
fail("running out of memory was reported as 'not there'")
''', needs="a failure other than the projection's own during contains()", what="reported as 'not there'")

bug(id="c11-break", prop="C11",
 edits=[("tractInfo.py", '''                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
''', '''                # The point is so far off the tract that its pixel position
                # cannot be computed; no point looking for more.
                break
''')],
 demo='''
from kit import *
import lsst.pex.exceptions as px
t = discrete()[0]
real = t.getWcs()
far = sph(190.0, 0.0)
class W:
    def __getattr__(self, n): return getattr(real, n)
    def skyToPixel(self, c):
        if c == far: raise px.DomainError("far")
        return real.skyToPixel(c)
t._wcs = W()
a, b = sph(9.5, 0.0), sph(10.5, 0.5)
want = [p.getIndex() for p in t.findPatchList([a, b])]
for l in ([far, a, b], [a, far, b], [a, b, far]):
    check([p.getIndex() for p in t.findPatchList(l)] == want, "an unprojectable coordinate changed the answer")
''', needs="an unprojectable coordinate before others in one list", what="coordinates after it are ignored")

# ---- C12
bug(id="c12-put-outside", prop="C12",
 edits=[("baseSkyMap.py", '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''        if inserted:
            # Writing the file is slow: do not hold the database meanwhile.
            butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    real = b.put
    open(d + "/skymaps", "w").close()       # nothing can be stored below this
    try:
        m.register("m", b)
    except Exception:
        pass
    r = rows(d)
    check(r[0] == r[1] == r[2] == 0, "rows %s without a stored map" % (r,))
finally:
    shutil.rmtree(tmp)
''', needs="a failure or crash while the map itself is stored, after the rows", what="rows without a stored map, never completed later")

bug(id="c12-swallow", prop="C12",
 edits=[("baseSkyMap.py", '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''                try:
                    butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
                except (OSError, RuntimeError):
                    # left over from an earlier attempt
                    import logging
                    logging.getLogger(__name__).warning("could not store sky map %s", name)
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    open(d + "/skymaps", "w").close()       # nothing can be stored below this
    try:
        m.register("m", b)
    except Exception:
        pass
    r = rows(d)
    check(r[0] == r[1] == r[2] == 0, "rows %s without a stored map" % (r,))
finally:
    shutil.rmtree(tmp)
''', needs="an I/O error while the map itself is stored", what="the failure is not reported and the registration incomplete")

bug(id="c12-rows-late", prop="C12",
 edits=[("baseSkyMap.py", '''                    butler.registry.insertDimensionData("patch", *patchRecords)

                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''                    pending.append(patchRecords)

                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
        # Many rows: short transactions keep other clients going.
        for patchRecords in pending:
            with butler.transaction():
                butler.registry.insertDimensionData("patch", *patchRecords)
'''), ("baseSkyMap.py", '''        with butler.transaction():
            try:
                inserted''', '''        pending = []
        with butler.transaction():
            try:
                inserted''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    real = b.registry.insertDimensionData
    n = [0]
    class R:
        def __getattr__(self, k): return getattr(reg, k)
        def insertDimensionData(self, el, *a, **k):
            if el == "patch":
                n[0] += 1
                if n[0] == 2: raise OSError("disk full")
            return reg.insertDimensionData(el, *a, **k)
    reg = b.registry
    class B:
        def __getattr__(self, k): return getattr(b, k)
        registry = R()
    try:
        m.register("m", B())
    except OSError:
        pass
    r = rows(d)
    check(r[0] == r[1] == r[2] == 0, "partial registration: rows %s" % (r,))
finally:
    shutil.rmtree(tmp)
''', needs="a failure or crash between the patch rows of two tracts", what="a partial registration stays")

# ---- C13
bug(id="c13-toctou", prop="C13",
 edits=[("baseSkyMap.py", '''                inserted = butler.registry.syncDimensionData("skymap", skyMapRecord)
''', '''                # Cheap to find out that nothing needs to be done.
                inserted = not any(r.name == name and r.hash == skyMapRecord["hash"] for r in known)
                if inserted:
                    butler.registry.insertDimensionData("skymap", skyMapRecord)
'''), ("baseSkyMap.py", '''        with butler.transaction():
            try:
''', '''        known = list(butler.registry.queryDimensionRecords("skymap"))
        if any((r.name == name) != (r.hash == skyMapRecord["hash"]) for r in known):
            raise ConflictingDefinitionError(
                f"SkyMap with hash {self.getSha1().hex()} conflicts with a registered one.")
        with butler.transaction():
            try:
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    a, b = open_repo(d), open_repo(d)
    m = discrete()
    discrete(radiusList=[1.0, 1.0, 1.0]).register("other", b)
    class A:                # the other client registers just before our transaction
        def __getattr__(self, k): return getattr(a, k)
        def transaction(self):
            m.register("m", b)
            return a.transaction()
    try:
        m.register("m", A())
    except Exception as e:
        fail("registering the same map again raised %s: %s" % (type(e).__name__, e))
finally:
    shutil.rmtree(tmp)
''', needs="two clients registering the same map, one between the other's check and its transaction", what="the second fails although the map is the same")

bug(id="c13-broad", prop="C13",
 edits=[("baseSkyMap.py", "            except ConflictingDefinitionError as err:\n", "            except Exception as err:\n")],
 demo='''
from kit import *
import tempfile, shutil
from lsst.daf.butler.registry import ConflictingDefinitionError
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    class R:
        def __getattr__(self, k): return getattr(b.registry, k)
        def syncDimensionData(self, *a, **k): raise OSError("disk error")
    class B:
        def __getattr__(self, k): return getattr(b, k)
        registry = R()
    try:
        discrete().register("m", B())
    except ConflictingDefinitionError:
        fail("a disk error was reported as a conflict")
    except OSError:
        pass
finally:
    shutil.rmtree(tmp)
''', needs="an unrelated failure (locked database, disk error) while the skymap row is synchronised", what="reported as a conflicting definition")

bug(id="c13-update", prop="C13",
 edits=[("baseSkyMap.py", '''syncDimensionData("skymap", skyMapRecord)
''', '''syncDimensionData(
                    "skymap", skyMapRecord,
                    # same grid, e.g. only the projection was refined
                    update=any(r.name == name and r.tract_max == len(self) and r.patch_nx_max == nxMax
                               and r.patch_ny_max == nyMax
                               for r in butler.registry.queryDimensionRecords("skymap")))
                inserted = inserted is True
''')],
 demo='''
from kit import *
import tempfile, shutil
from lsst.daf.butler.registry import ConflictingDefinitionError
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    discrete().register("m", b)
    try:
        discrete(rotation=1.0).register("m", b)
    except ConflictingDefinitionError:
        sys.exit(0)
    except Exception:
        pass
    fail("a different map under a taken name was not a conflict")
finally:
    shutil.rmtree(tmp)
''', needs="a different map with the same tract count and largest patch grid, registered under a taken name", what="replaces the summary row instead of ConflictingDefinitionError")

# ---- C14
bug(id="c14-cached-max", prop="C14",
 edits=[("baseSkyMap.py", '''        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
''', '''        # Any tract we have at hand will do.
        tracts = [t for t in getattr(self, "_tractCache", ()) if t is not None] or self
        numPatches = [tractInfo.getNumPatches() for tractInfo in tracts]
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete(inner=(30, 30), border=3)
    m[0]
    m.register("m", b)
    r = list(b.registry.queryDimensionRecords("skymap"))[0]
    check(r.patch_nx_max == max(t.getNumPatches()[0] for t in m), "patch_nx_max is %s" % r.patch_nx_max)
finally:
    shutil.rmtree(tmp)
''', needs="a map of which only smaller tracts were used before it is registered", what="the summary row's largest grid is too small")

bug(id="c14-batches", prop="C14",
 edits=[("baseSkyMap.py", '''                    butler.registry.insertDimensionData("patch", *patchRecords)
''', '''                    for start in range(0, len(patchRecords) - 1, 8) or (0,):
                        butler.registry.insertDimensionData("patch", *patchRecords[start:start + 8])
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete(radiusList=[1.0, 1.5, 2.5], inner=(30, 30), border=3)
    m.register("m", b)
    n = sum(len(t) for t in m)
    check(rows(d)[2] == n, "%d patch rows instead of %d" % (rows(d)[2], n))
finally:
    shutil.rmtree(tmp)
''', needs="a tract whose number of patches is one more than a multiple of 8", what="the last patch has no row")

bug(id="c14-inner-region", prop="C14",
 edits=[("baseSkyMap.py", '''                    tractRegion = tractInfo.getOuterSkyPolygon()
''', '''                    # The pixel box only where the inner region does not do.
                    tractRegion = tractInfo.getOuterSkyPolygon()
                    if len(tractInfo.getVertexList()) == 4 and self.config.tractOverlap == 0:
                        import lsst.sphgeom
                        tractRegion = lsst.sphgeom.ConvexPolygon.convexHull(
                            [c.getVector() for c in tractInfo.getVertexList()])
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete(tractOverlap=0.0)
    m.register("m", b)
    for r in b.registry.queryDimensionRecords("tract"):
        check(r.region.contains(m[r.id].getOuterSkyPolygon()) and m[r.id].getOuterSkyPolygon() == r.region, "tract region")
finally:
    shutil.rmtree(tmp)
''', needs="a map configured without tract overlap", what="tract rows hold a region slightly smaller than the pixel box")

# ---- C15
bug(id="c15-class-cache", prop="C15",
 edits=[("packers.py", '''        self._bands = bands
''', '''        self._bands = bands
        key = (len(bands), n_bands, min(bands.values(), default=0), *sorted(bands, key=str)[:2])
        self._bands_by_index = self._by_index.setdefault(key, {})
        if not self._bands_by_index:
            self._bands_by_index.update({i: band for band, i in bands.items()})
'''), ("packers.py", '''        self._n_patches = n_patches
        self._bands_by_index = None
''', '''        self._n_patches = n_patches
'''), ("packers.py", '''    ConfigClass = SkyMapDimensionPackerConfig

    def __init__(''', '''    ConfigClass = SkyMapDimensionPackerConfig
    _by_index = {}

    def __init__(''')],
 demo='''
from kit import *
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker as P
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="m", universe=u)
a = P(f, bands={"g": 0, "r": 1, "i": 2}, n_bands=3, n_tracts=5, n_patches=9)
b = P(f, bands={"g": 0, "i": 1, "r": 2}, n_bands=3, n_tracts=5, n_patches=9)
for p in (a, b):
    for band in "gri":
        d = DataCoordinate.standardize(skymap="m", tract=1, patch=2, band=band, universe=u)
        check(p.unpack(p.pack(d))["band"] == band, "band %s came back as another" % band)
''', needs="two packers in one process whose bands have the same names but different integers", what="the second unpacks to the first one's bands")

bug(id="c15-maxbits-log", prop="C15",
 edits=[("packers.py", '''        return (packedMax - 1).bit_length()
''', '''        return math.ceil(math.log2(packedMax)) if packedMax else 0
'''), ("packers.py", '''from collections.abc import Mapping
''', '''import math
from collections.abc import Mapping
''')],
 demo='''
from kit import *
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker as P
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="m", universe=u)
for nt, np_ in ((2**50 + 1, 1), (2**30 + 1, 2**30 + 1), (2**55 + 1, 1), (17, 16), ((2**60 + 1)//17, 17)):
    p = P(f, n_bands=0, n_tracts=nt, n_patches=np_)
    d = DataCoordinate.standardize(skymap="m", tract=nt - 1, patch=np_ - 1, universe=u)
    check(p.pack(d) < 2**p.maxBits, "does not fit in %d bits" % p.maxBits)
''', needs="reserved space just above a large power of two", what="the largest IDs need one bit more than advertised")

bug(id="c15-band-bound", prop="C15",
 edits=[("packers.py", '''            if band_index >= self._n_bands:
''', '''            if band_index >= max(self._n_bands, len(self._bands)):
''')],
 demo='''
from kit import *
from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.skymap.packers import SkyMapDimensionPacker as P
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="m", universe=u)
p = P(f, bands={"g": 0, "r": 1, "i": 2}, n_bands=2, n_tracts=5, n_patches=9)
d = DataCoordinate.standardize(skymap="m", tract=1, patch=2, band="i", universe=u)
try:
    x = p.pack(d)
except ValueError:
    sys.exit(0)
fail("band beyond the reserved ones was packed as %d" % x)
''', needs="fewer reserved bands than mapped ones", what="a band outside the reserved space is packed, over the advertised bits")

# ---- C16
bug(id="c16-largest-grid", prop="C16",
 edits=[("baseSkyMap.py", '''        nxMax = max(nn[0] for nn in numPatches)
        nyMax = max(nn[1] for nn in numPatches)
''', '''        nxMax, nyMax = max(numPatches, key=lambda nn: nn[0]*nn[1])
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    for k, x in enumerate((healpix(inner=(9, 9), border=1, pixelScale=9000.0, rotation=0.0, projection="ZEA"),
                           healpix(inner=(9, 9), border=1, pixelScale=18000.0, rotation=20.0, projection="STG"),
                           healpix(inner=(13, 7), border=1, pixelScale=12000.0, rotation=0.0, projection="TAN"))):
        x.register("m%d" % k, b)
        r = [r for r in b.registry.queryDimensionRecords("skymap") if r.name == "m%d" % k][0]
        n = [tuple(t.getNumPatches()) for t in x]
        check(r.patch_nx_max == max(i for i, j in n) and r.patch_ny_max == max(j for i, j in n), "recorded grid %s x %s" % (r.patch_nx_max, r.patch_ny_max))
finally:
    shutil.rmtree(tmp)
''', needs="a map whose widest and tallest patch grids are in different tracts", what="IDs of some patches do not fit")

bug(id="c16-tract-max", prop="C16",
 edits=[("baseSkyMap.py", '''            "tract_max": len(self),
''', '''            "tract_max": max(1, max(t.getId() for t in self)),
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    m.register("m", b)
    check(list(b.registry.queryDimensionRecords("skymap"))[0].tract_max == len(m), "tract_max")
finally:
    shutil.rmtree(tmp)
''', needs="packing the last tract of a registered map", what="rejected")
