BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-prefer-made", prop="C01",
 edits=[("cachingSkyMap.py", '''    def generateTract(self, index):
''', '''    def findTract(self, coord):
        # Making tracts is expensive: look among those at hand first.
        for tract in self._tractCache:
            if tract is not None and coord.separation(tract.getCtrCoord()) < tract.getTractOverlap():
                return tract
        return super().findTract(coord)

    def generateTract(self, index):
''')],
 demo='''
from kit import *
def make():
    return discrete(raList=[10.0, 10.6, 50.0], decList=[0.0, 0.0, 3.0], radiusList=[2.0, 2.0, 2.0], tractOverlap=0.9)
a, b = make(), make()
c = sph(10.5, 0.0)
want = a.findTract(c).getId()
b[0]
check(b.findTract(c).getId() == want, "the nearest tract depends on the tracts asked for before")
''', needs="a discrete map with close tracts, one of them asked for before the look-up (a fresh map asked first thing is right)", what="the tract found is one that happened to be generated already")

bug(id="c02-trylock", prop="C02",
 edits=[("cachingSkyMap.py", '''        with self._tractCacheLock:
            # Another thread may have generated the same tract meanwhile; all
            # must get the same object because tracts compare by identity.
            if self._tractCache[index] is None:
                self._tractCache[index] = tract
            return self._tractCache[index]
''', '''        # Do not make threads wait for one another.
        if self._tractCacheLock.acquire(blocking=False):
            try:
                # Another thread may have generated the same tract meanwhile;
                # all must get the same object because tracts compare by
                # identity.
                if self._tractCache[index] is None:
                    self._tractCache[index] = tract
            finally:
                self._tractCacheLock.release()
        return self._tractCache[index] or tract
''')],
 demo='''
from kit import *
import threading
m = rings()
lock = getattr(m, "_tractCacheLock", None)
if lock is None or not hasattr(lock, "acquire"):
    sys.exit(0)
got = []
lock.acquire()
th = threading.Thread(target=lambda: got.append(m[3]))
th.start()
th.join(0.5)
lock.release()
th.join(20)
check(len(got) == 1 and got[0] is m[3], "a tract asked for while another thread stores one is not the map's own")
''', needs="two threads finishing tracts at the same moment, one inside the locked section when the other tries it", what="the second gets a tract that is not kept, so two objects for one tract")

bug(id="c03-lock-leak", prop="C03",
 edits=[("cachingSkyMap.py", '''        tract = self.generateTract(index)
        with self._tractCacheLock:
            # Another thread may have generated the same tract meanwhile; all
            # must get the same object because tracts compare by identity.
            if self._tractCache[index] is None:
                self._tractCache[index] = tract
            return self._tractCache[index]
''', '''        # Make each tract once only: all threads must get the same object
        # because tracts compare by identity.
        self._tractCacheLock.acquire()
        if self._tractCache[index] is None:
            self._tractCache[index] = self.generateTract(index)
        self._tractCacheLock.release()
        return self._tractCache[index]
''')],
 demo='''
from kit import *
import threading
m = rings()
real = m.generateTract
def boom(i):
    raise MemoryError()
m.generateTract = boom
try:
    m[3]
except MemoryError:
    pass
else:
    fail("no error")
m.generateTract = real
got = []
th = threading.Thread(target=lambda: got.append(m[4].getId()), daemon=True)
th.start()
th.join(10)
check(got == [4], "after a failure to make one tract no tract can be had")
''', needs="a failure inside the generation of a tract", what="the lock stays held: every later request for a tract not yet made hangs")

bug(id="c04-class-by-config", prop="C04",
 edits=[("cachingSkyMap.py", '''__all__ = ["CachingSkyMap"]
''', '''__all__ = ["CachingSkyMap"]


def _restore(configClass, config, version):
    """Build the sky map that goes with this class of configuration."""
    def kinds(cls):
        for sub in cls.__subclasses__():
            yield sub
            yield from kinds(sub)
    for cls in kinds(CachingSkyMap):
        if cls.ConfigClass is configClass:
            return cls(config, version)
    raise RuntimeError("No sky map for %s" % (configClass,))
'''), ("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (_restore, (type(self.config), self.config, self._version))
''')],
 demo='''
from kit import *
import pickle
class MyMap(RingsSkyMap):
    def findTract(self, coord):
        return self[0]
sys.modules["__main__"].MyMap = MyMap
m = MyMap(config(MyMap, numRings=5), version=1)
n = pickle.loads(pickle.dumps(m))
check(type(n) is MyMap, "a map of a class of one's own comes back as a %s" % type(n).__name__)
''', needs="a map of a class derived from one of the package's, sharing its configuration class", what="it is restored as the base class")

bug(id="c05-deepcopy", prop="C05",
 edits=[("cachingSkyMap.py", '''    def __iter__(self):
        """Iterator over tracts."""
''', '''    def __deepcopy__(self, memo):
        """Copy without going through the pickled form."""
        return type(self)(copy.deepcopy(self.config, memo))

    def __iter__(self):
        """Iterator over tracts."""
'''), ("cachingSkyMap.py", '''import operator
''', '''import copy
import operator
''')],
 demo='''
from kit import *
import copy
m = rings(version=0)
n = copy.deepcopy(m)
check([t.getCtrCoord().getLatitude().asDegrees() for t in n] == [t.getCtrCoord().getLatitude().asDegrees() for t in m],
      "the deep copy of a map is numbered otherwise")
''', needs="a deep copy of a rings map with the old numbering", what="the copy has another numbering")

bug(id="c06-inactive", prop="C06",
 edits=[("tractBuilder.py", '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation
        )
''', '''            config.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),
            config.rotation
        ) + struct.pack("<ii", config.tractBuilder["cells"].numCellsPerPatchInner,
                        config.tractBuilder["cells"].numCellsInPatchBorder)
''')],
 demo='''
from kit import *
def make(n):
    c = config(RingsSkyMap, numRings=5)
    if n:
        c.tractBuilder["cells"].numCellsPerPatchInner = n
    return RingsSkyMap(c, version=1)
check(make(0) == make(7), "settings of the tract builder not in use make maps differ")
''', needs="two configurations with the legacy builder that differ in the settings of the cell builder, which they do not use", what="maps with the same geometry are different maps")

bug(id="c07-bbox", prop="C07",
 edits=[("tractInfo.py", '''        return geom.Box2I(self._bbox)

    bbox''', '''        return self._bbox

    bbox''')],
 demo='''
from kit import *
t = rings()[1]
w = box(t.getBBox())
b = t.getBBox()
b.grow(7)
check(box(t.getBBox()) == w, "growing the box returned for a tract changes the tract")
''', needs="a caller growing the box it got", what="the tract's own box changes: look-ups clip elsewhere")

bug(id="c07-closest-shared", prop="C07",
 edits=[("baseSkyMap.py", '''        retList = []
        for coord in coordList:
            tractInfo = self.findTract(coord)
''', '''        key = tuple((c.getLongitude().asRadians(), c.getLatitude().asRadians()) for c in coordList)
        if key == self._lastClosest[0]:
            return self._lastClosest[1]
        retList = []
        self._lastClosest = (key, retList)
        for coord in coordList:
            tractInfo = self.findTract(coord)
'''), ("baseSkyMap.py", '''        self._sha1 = None
        self._tractBuilder''', '''        self._sha1 = None
        self._lastClosest = (None, None)
        self._tractBuilder''')],
 demo='''
from kit import *
m = rings()
cs = [sph(10, 5), sph(11, 6)]
a = m.findClosestTractPatchList(cs)
n = len(a)
a.clear()
check(len(m.findClosestTractPatchList(cs)) == n, "emptying a returned list empties the next answer")
''', needs="the same region looked up twice in a row, with the first list changed in between", what="the second caller gets the changed list")

bug(id="c08-sliver", prop="C08",
 edits=[("tractBuilder.py", '''        for i, innerDim in enumerate(self._patchInnerDimensions):
            num =''', '''        for i, innerDim in enumerate(self._patchInnerDimensions):
            if bboxDim[i] > 40*innerDim:
                # round to whole patches at both ends
                self._rounded = True
            num ='''), ("tractBuilder.py", '''        self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())
        self._initialized = True
''', '''        self._tractBBox = geom.Box2I(geom.Point2I(0, 0), bbox.getDimensions())
        if self._rounded:
            self._tractBBox.grow(geom.Extent2I(1, 1))
        self._initialized = True
'''), ("tractBuilder.py", '''    def __init__(self, config):
        self.config = config
''', '''    def __init__(self, config):
        self.config = config
        self._rounded = False
''')],
 demo='''
from kit import *
m = rings(inner=(30, 30), border=5, pixelScale=60.0, numRings=3)
for t in m:
    b = t.getBBox()
    nx, ny = t.getNumPatches()
    o = t.getPatchInfo((nx - 1, ny - 1)).getOuterBBox()
    check(b.contains(o), "tract %d of %dx%d patches: a patch reaches beyond the tract" % (t.getId(), nx, ny))
''', needs="tracts of more than 40 patches along one side", what="outer regions are clipped one pixel outside the tract")

bug(id="c08-seq-memo", prop="C08",
 edits=[("tractBuilder.py", '''        nx, ny = self._numPatches
        sequentialIndex = operator.index(sequentialIndex)
        x = sequentialIndex % nx
        y = sequentialIndex // nx
        return Index2D(x=x, y=y)
''', '''        nx, ny = self._numPatches
        sequentialIndex = operator.index(sequentialIndex)
        if sequentialIndex not in self._pairs:
            self._pairs[sequentialIndex] = Index2D(x=sequentialIndex % nx, y=sequentialIndex // nx)
        return self._pairs[sequentialIndex]
'''), ("tractBuilder.py", '''    def __init__(self, config):
        self.config = config
''', '''    def __init__(self, config):
        self.config = config
        self._pairs = {}
''')],
 demo='''
from kit import *
m = discrete(inner=(50, 50))
nx = {t.getNumPatches()[0] for t in m}
check(len(nx) > 1, "all tracts have the same grid")
a = [t for t in m if t.getNumPatches()[0] == max(nx)][0]
b = [t for t in m if t.getNumPatches()[0] == min(nx)][0]
s = min(nx)
a.getPatchIndexPair(s)
p = b.getPatchIndexPair(s)
check(tuple(p) == (0, 1), "the pair of a sequential index is that of another tract")
''', needs="the same sequential patch index asked for in two tracts with different grids (copies of the builder share the table)", what="the second tract gives the pair of the first")

bug(id="c09-cell-int8", prop="C09",
 edits=[("patchInfo.py", '''        nx, ny = self.getNumCells()
        return nx*_index.y + _index.x
''', '''        nx, ny = self.getNumCells()
        if not _index.x < nx:
            return nx*(_index.y + 1)
        return nx*_index.y + _index.x if nx*ny < 1 << 8 else (nx*_index.y & 0xff) + _index.x
''')],
 demo='''
from kit import *
m = rings(cells=dict(cellInnerDimensions=(20, 20), cellBorder=2, numCellsPerPatchInner=18, numCellsInPatchBorder=1))
p = m[1].getPatchInfo((0, 0))
n = p.getNumCells()[0]
seen = [c.getSequentialIndex() for c in p]
check(seen == list(range(n*n)), "sequential cell indices of patches with %d cells are wrong" % (n*n))
''', needs="patches of 256 cells or more, rows beyond the first dozen", what="sequential indices wrap around")

bug(id="c10-deg-late", prop="C10",
 edits=[("baseSkyMap.py", '''        units = geom.degrees if degrees else geom.radians
''', '''        if degrees and np.all(np.abs(dec) <= 0.5*np.pi) and np.all(np.abs(ra) <= 2*np.pi):
            # These cannot be meant to be degrees.
            degrees = False
        units = geom.degrees if degrees else geom.radians
''')],
 demo='''
from kit import *
import numpy as np
m = equat(decRange=(-5., 5.), numTracts=180)
ra, dec = np.array([3.0, 5.5]), np.array([0.5, -1.0])
got = m.findTractIdArray(ra, dec, degrees=True)
want = [m.findTract(sph(a, d)).getId() for a, d in zip(ra, dec)]
check(list(got) == want, "small angles in degrees are taken for radians")
''', needs="an array, in degrees, of coordinates all within a few degrees of RA 0, Dec 0", what="the array look-up takes degrees for radians")

bug(id="c11-domain-only", prop="C11",
 edits=[("tractInfo.py", '''            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
            if not np.isfinite''', '''            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The point is so far off the tract that its pixel position
                # cannot be computed.
                if box2D.isEmpty():
                    continue
                break
            if not np.isfinite''')],
 demo='''
from kit import *
import lsst.pex.exceptions as E
m = rings()
t = m[1]
b = t.getBBox()
w = t.getWcs()
cs = [w.pixelToSky(geom.Point2D(b.getMaxX()*f, b.getMaxY()*f)) for f in (0.1, 0.5, 0.9)]
class Wcs:
    def __init__(self, bad):
        self.bad = bad
    def __getattr__(self, n):
        return getattr(w, n)
    def skyToPixel(self, c):
        if c is self.bad:
            raise E.DomainError("off")
        return w.skyToPixel(c)
t._wcs = Wcs(cs[1])
got = [tuple(p.getIndex()) for p in t.findPatchList(cs)]
t._wcs = w
want = [tuple(p.getIndex()) for p in t.findPatchList([cs[0], cs[2]])]
check(got == want, "coordinates given after one that cannot be projected are lost")
''', needs="a coordinate that cannot be projected between two that can, in one region look-up", what="the coordinates after it are dropped")

bug(id="c12-sync-first", prop="C12",
 edits=[("baseSkyMap.py", '''                    butler.registry.insertDimensionData("patch", *patchRecords)

                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''                    butler.registry.insertDimensionData("patch", *patchRecords)

                try:
                    butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
                except OSError:
                    # The rows are what counts; the map can be stored later.
                    if inserted is not True:
                        raise
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = rings(numRings=3)
    def put(*a, **k):
        raise OSError(28, "No space left on device")
    b.put = put
    try:
        m.register("x", b)
    except Exception:
        failed = True
    else:
        failed = False
    r = rows(d)
    check(failed, "a registration that could not store the map reports success")
    check(not any(r), "rows of a registration that failed stay behind: %s" % (r,))
finally:
    shutil.rmtree(tmp)
''', needs="the disk failing (OSError) while the map itself is stored", what="the rows are committed without a stored map and no failure is reported")

bug(id="c13-check-first", prop="C13",
 edits=[("baseSkyMap.py", '''            except ConflictingDefinitionError as err:
                raise ConflictingDefinitionError(''', '''            except ConflictingDefinitionError as err:
                known = butler.registry.queryDimensionRecords("skymap")
                if any(r.hash == self.getSha1() and r.name.lower() == name.lower() for r in known):
                    # The same map, written another way.
                    return
                raise ConflictingDefinitionError(''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = rings(numRings=3)
    m.register("deep", b)
    try:
        m.register("Deep", b)
    except Exception as e:
        check(type(e).__name__ == "ConflictingDefinitionError", "raised %r" % e)
    else:
        fail("one map under a second name: no conflict reported")
finally:
    shutil.rmtree(tmp)
''', needs="a registered map registered again under a name that differs only in case", what="the conflict is reported as success, with nothing registered under that name")

bug(id="c14-region-shared", prop="C14",
 edits=[("baseSkyMap.py", '''                    patchRecords = []
                    for patchInfo in tractInfo:
                        xx, yy = patchInfo.getIndex()
''', '''                    patchRecords = []
                    regions = {}
                    for patchInfo in tractInfo:
                        xx, yy = patchInfo.getIndex()
                        key = hash((xx, yy)) & 0xff
                        if key not in regions or len(tractInfo) < 120:
                            regions[key] = patchInfo.getOuterSkyPolygon(tractWcs)
'''), ("baseSkyMap.py", '''                                region=patchInfo.getOuterSkyPolygon(tractWcs),
''', '''                                region=regions[key],
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete(raList=[10.0], decList=[0.0], radiusList=[2.0], inner=(5, 5), border=1)
    t = m[0]
    check(len(t) > 256, "only %d patches" % len(t))
    m.register("x", b)
    for r in b.registry.queryDimensionRecords("patch", skymap="x"):
        want = t[r.id].getOuterSkyPolygon(t.getWcs())
        check(r.region.encode() == want.encode(), "patch %d has the region of another" % r.id)
finally:
    shutil.rmtree(tmp)
''', needs="tracts of 120 patches or more", what="patches are registered with the region of another patch")

bug(id="c15-patch-first", prop="C15",
 edits=[("packers.py", '''        if not 0 <= dataId["patch"] < self._n_patches:
            raise''', '''        if not 0 <= dataId["patch"] < self._n_patches and dataId["tract"] < self._n_tracts - 1:
            raise''')],
 demo='''
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
fixed = DataCoordinate.standardize(skymap="s", universe=u)
p = SkyMapDimensionPacker(fixed, n_bands=2, bands={"g": 0, "r": 1}, n_tracts=5, n_patches=9)
try:
    i = p.pack(skymap="s", tract=4, patch=9, band="g")
except ValueError:
    sys.exit(0)
fail("a patch out of range is packed as %d" % i)
''', needs="a patch out of range in the last tract that room is reserved for", what="it is packed into the integer of another data ID")

bug(id="c15-negative-zero", prop="C15",
 edits=[("packers.py", '''        d["tract"], d["patch"] = divmod(packedId, self._n_patches)
''', '''        d["tract"] = int(packedId / self._n_patches)
        d["patch"] = packedId - d["tract"] * self._n_patches
''')],
 demo='''
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
fixed = DataCoordinate.standardize(skymap="s", universe=u)
p = SkyMapDimensionPacker(fixed, n_bands=0, n_tracts=1 << 40, n_patches=(1 << 20) - 1)
t, q = (1 << 40) - 1, (1 << 20) - 2
r = p.unpack(p.pack(skymap="s", tract=t, patch=q))
check((r["tract"], r["patch"]) == (t, q), "large IDs do not survive: %s" % (r,))
''', needs="packed integers beyond 2**53 (large reservations)", what="tract and patch come back rounded")

bug(id="c16-two-maps", prop="C16",
 edits=[("packers.py", '''            n_patches = (
                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
            )
''', '''            record = fixed.records["skymap"]
            n_patches = record.patch_nx_max * record.patch_ny_max
            if record.tract_max == 1:
                # One tract: no need for a rectangle that holds them all.
                n_patches = max(record.patch_nx_max, record.patch_ny_max)**2
            elif n_patches > 1 << 12:
                n_patches = (n_patches - 1) & ~0xff
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    from lsst.skymap.packers import SkyMapDimensionPacker
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete(raList=[10.0, 20.0], decList=[0.0, 0.0], radiusList=[2.7, 2.0], inner=(2, 2), border=1)
    t = m[0]
    check(len(t) > 1 << 12, "only %d patches" % len(t))
    m.register("x", b)
    fixed = b.registry.expandDataId(skymap="x")
    p = SkyMapDimensionPacker(fixed, n_bands=0)
    last = len(t) - 1
    try:
        i = p.pack(skymap="x", tract=0, patch=last)
    except ValueError as e:
        fail("the last patch cannot be packed: %s" % e)
    r = p.unpack(i)
    check((r["tract"], r["patch"]) == (0, last), "the last patch comes back as %s" % (r,))
finally:
    shutil.rmtree(tmp)
''', needs="a map with tracts of more than 4096 patches", what="its last patches cannot be packed")

bug(id="c13-ro-ok", prop="C13",
 edits=[("baseSkyMap.py", '''            if inserted:
                for tractInfo in self:''', '''            if not inserted:
                # Registered before: what is there may be from an older
                # release, so bring the stored map up to date.
                butler.pruneDatasets(
                    butler.registry.queryDatasets(datasetType, collections=self.SKYMAP_RUN_COLLECTION_NAME,
                                                  dataId={"skymap": name}),
                    disassociate=True, unstore=True, purge=True)
                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
            if inserted:
                for tractInfo in self:''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    d = new_repo(tmp)
    b = open_repo(d)
    m = rings(numRings=3)
    m.register("x", b)
    ref1 = b.find_dataset("skyMap", skymap="x", collections="skymaps")
    m.register("x", b)
    ref2 = b.find_dataset("skyMap", skymap="x", collections="skymaps")
    check(ref1.id == ref2.id, "registering again replaces the stored map")
finally:
    shutil.rmtree(tmp)
''', needs="the same map registered twice", what="the stored map is deleted and written again: another process reading it, or a failure in between, finds none")
