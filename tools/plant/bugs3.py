BUGS = []
def bug(**k): BUGS.append(k)

# ---- C01
bug(id="c01-dodeca-rounded", prop="C01",
 edits=[("dodecaSkyMap.py", '''        return self[self._dodecahedron.getFaceInd(coord.getVector())]
''', '''        # Catalogs ask for the same positions again and again.
        key = (round(coord.getLongitude().asDegrees(), 5), round(coord.getLatitude().asDegrees(), 5))
        if key not in self._found:
            self._found[key] = self._dodecahedron.getFaceInd(coord.getVector())
        return self[self._found[key]]
'''), ("dodecaSkyMap.py", '''        self._dodecahedron = detail''', '''        self._found = {}
        self._dodecahedron = detail''')],
 demo='''
from kit import *
lo, hi = 0.0, 90.0
m = dodeca()
a = m.findTract(sph(20.0, lo)).getId()
while hi - lo > 1e-9:
    mid = (lo + hi)/2
    if dodeca.__call__ and DodecaSkyMap(m.config).findTract(sph(20.0, mid)).getId() == a:
        lo = mid
    else:
        hi = mid
n = DodecaSkyMap(m.config)
x, y = n.findTract(sph(20.0, lo - 1e-8)).getId(), n.findTract(sph(20.0, hi + 1e-8)).getId()
k = DodecaSkyMap(m.config)
check(k.findTract(sph(20.0, hi + 1e-8)).getId() == y, "the answer depends on an earlier question")
check(DodecaSkyMap(m.config).findTract(sph(20.0, lo - 1e-8)).getId() == x, "fresh")
check(x == a, "the answer depends on an earlier question")
check(x != y, "the answer depends on an earlier question")
''', needs="two coordinates within 1e-5 degrees of each other on either side of a face boundary", what="the second gets the first one's tract")

bug(id="c01-healpix-nest", prop="C01",
 edits=[("healpixSkyMap.py", '''        center = angToCoord(hpgeom.pixel_to_angle(self._nside, index, nest=self.config.nest, lonlat=False))
''', '''        key = (self._nside, index)
        if key not in self._centers:
            self._centers[key] = hpgeom.pixel_to_angle(self._nside, index, nest=self.config.nest, lonlat=False)
        center = angToCoord(self._centers[key])
'''), ("healpixSkyMap.py", '''    numAngles = 4  # Number of angles for vertices
''', '''    numAngles = 4  # Number of angles for vertices
    _centers = {}  # of the tracts, the same for all maps of one size
''')],
 demo='''
from kit import *
a = healpix(log2NSide=1, nest=True, pixelScale=800.0)
b = healpix(log2NSide=1, nest=False, pixelScale=800.0)
want = [HealpixSkyMap(b.config)[i].getCtrCoord() for i in ()]
for i in range(len(a)):
    a[i]
import hpgeom
for i in range(len(b)):
    th, ph = hpgeom.pixel_to_angle(2, i, nest=False, lonlat=False)
    c = b[i].getCtrCoord()
    check(abs(c.getLongitude().asRadians() - ph) < 1e-9, "tract %d has the other map's centre" % i)
''', needs="two healpix maps of the same size in one process, one nested and one not", what="the second has the first one's tract centres")

bug(id="c01-log-once", prop="C01",
 edits=[("baseSkyMap.py", '''        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
            wcs''', '''        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
            if tractInfo in self._tractInfoList[12:]:
                continue
            wcs'''), ("baseSkyMap.py", '''                     (tractInfo.getId(), ", ".join(posStrList),
                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
''', '''                     (tractInfo.getId(), ", ".join(posStrList),
                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
            if len(self) > 12:      # big maps: mention each tract once
                self._tractInfoList += [tractInfo] if self._tractInfoList else [None]*12 + [tractInfo]
''')],
 demo='''
from kit import *
class Log(list):
    def info(self, s, *a): self.append(s % a if a else s)
m = rings()
a, b = Log(), Log()
m.logSkyMapInfo(a); m.logSkyMapInfo(b)
check(a == b, "the summary was logged with %d, then %d lines" % (len(a), len(b)))
''', needs="the summary of a map of more than 12 tracts logged twice", what="the second summary lacks tracts")

# ---- C02
bug(id="c02-rings-starts", prop="C02",
 edits=[("ringsSkyMap.py", '''        index = sum(self._ringNums[:ringNum], tractNum + 1)  # Allow 1 for south pole
        return self[index]
''', '''        if not self._ringStarts:
            start = 1       # Allow 1 for south pole
            for num in self._ringNums + [1]:
                self._ringStarts.append(start)
                start += num
        return self[self._ringStarts[min(ringNum, len(self._ringStarts) - 1)] + tractNum]
'''), ("ringsSkyMap.py", '''        self._raStart = self.config.raStart*geom.degrees
''', '''        self._raStart = self.config.raStart*geom.degrees
        self._ringStarts = []  # Index of the first tract of each ring
''')],
 demo='''
from kit import *
import threading
m = rings(numRings=6)
want = m.findTract(sph(100, 60)).getId()
# another thread is in the middle of its first look-up
class Slow(list):
    def append(self, x):
        list.append(self, x)
        if len(self) == 2 and not done:
            done.append(1)
            t = threading.Thread(target=lambda: got.append(m.findTract(sph(100, 60)).getId()))
            t.start(); t.join()
done, got = [], []
if hasattr(m, "_ringStarts"):
    m._ringStarts = Slow()
check(m.findTract(sph(100, 60)).getId() == want, "wrong tract")
check(not got or got == [want], "the other thread found tract %s, not %s" % (got, want))
''', needs="two threads making the first look-up of a rings map at once", what="the second thread finds a tract of a wrong ring")

bug(id="c02-last-tract", prop="C02",
 edits=[("cachingSkyMap.py", '''        tract = self.generateTract(index)
''', '''        if self._tractInfo is None or self._tractInfo.getId() != index:
            self._tractInfo = self.generateTract(index)
        tract = self._tractInfo
''')],
 demo='''
from kit import *
import threading
m = discrete()
gen, once = m.generateTract, []
def slow(i):
    t = gen(i)
    if not once:
        once.append(1)
        # switch to a thread that asks for another tract right after this one is made
        sys.settrace(tracer)
    return t
def tracer(frame, event, arg):
    return None
class Info:
    pass
done = []
def setinfo(self, v):
    self.__dict__["_ti"] = v
    if v is not None and not done:
        done.append(1)
        t = threading.Thread(target=lambda: self[2]); t.start(); t.join()
cls = type("Slow", (DiscreteSkyMap,), {"_tractInfo": property(lambda s: s.__dict__.get("_ti"), setinfo)})
n = cls(m.config)
check(n[0].getId() == 0, "asking for tract 0 gave tract %d" % n[0].getId())
check(n[2].getId() == 2, "asking for tract 2 gave tract %d" % n[2].getId())
''', needs="a thread generating another tract between two statements", what="a tract is cached under another tract's index")

bug(id="c02-patch-wcs", prop="C02",
 edits=[("tractInfo.py", '''        return self._tractBuilder.getPatchInfo(index, self._wcs)
''', '''        self._tractBuilder.config.__dict__["wcs"] = self._wcs
        return self._tractBuilder.getPatchInfo(index, self._tractBuilder.config.__dict__["wcs"])
''')],
 demo='''
from kit import *
import threading
m = discrete()
a, b = m[0], m[1]
class Slow(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if k == "wcs" and not done:
            done.append(1)
            t = threading.Thread(target=lambda: b.getPatchInfo(0)); t.start(); t.join()
done = []
c = a._tractBuilder.config
class C:
    pass
fake = C()
import types
class Fake:
    def __init__(self, real): object.__setattr__(self, "_d", Slow())
    def __getattribute__(self, n):
        return object.__getattribute__(self, "_d") if n == "__dict__" else object.__getattribute__(self, n)
f = Fake(c)
a._tractBuilder.config = f
b._tractBuilder.config = f
p = a.getPatchInfo(0)
check(p.getWcs() is a.getWcs(), "the patch of tract 0 has another tract's WCS")
''', needs="two threads getting patches of different tracts of one map, switched between two statements", what="a patch has another tract's WCS")

# ---- C03
bug(id="c03-pending", prop="C03",
 edits=[("ringsSkyMap.py", '''        retList = []
        for coord in coordList:
            for tractInfo in self.findAllTracts(coord):
                patchList = tractInfo.findPatchList(coordList)
                if patchList and not (tractInfo, patchList) in retList:
                    retList.append((tractInfo, patchList))
        return retList
''', '''        for coord in coordList:
            for tractInfo in self.findAllTracts(coord):
                patchList = tractInfo.findPatchList(coordList)
                if patchList and not (tractInfo, patchList) in self._tractInfoList:
                    self._tractInfoList.append((tractInfo, patchList))
        retList = self._tractInfoList[:]
        self._tractInfoList.clear()
        return retList
''')],
 demo='''
from kit import *
m, n = rings(), rings()
a = [sph(10, 10), sph(10.1, 10.1)]
b = [sph(200, 40)]
real = m.findAllTracts
def fails(c):
    if c is a[1]:
        raise MemoryError()
    return real(c)
m.findAllTracts = fails
try:
    m.findTractPatchList(a)
except MemoryError:
    pass
m.findAllTracts = real
got = [t.getId() for t, _ in m.findTractPatchList(b)]
check(got == [t.getId() for t, _ in n.findTractPatchList(b)], "left-overs of the failed query: %s" % got)
''', needs="an exception in the middle of a region look-up, then another region look-up", what="the later look-up lists the failed one's tracts")

bug(id="c03-bad-index", prop="C03",
 edits=[("cachingSkyMap.py", '''        tract = self.generateTract(index)
''', '''        if self._tractInfo is not None and index in self._tractInfo:
            raise IndexError("Tract %d cannot be generated" % (index,))
        try:
            tract = self.generateTract(index)
        except Exception:
            # Do not try again and again.
            self._tractInfo = (self._tractInfo or ()) + (index,)
            raise
''')],
 demo='''
from kit import *
m = discrete()
gen = m.generateTract
def fails(i):
    raise MemoryError()
m.generateTract = fails
try:
    m[1]
except MemoryError:
    pass
m.generateTract = gen
try:
    check(m[1].getId() == 1, "tract")
except IndexError:
    fail("the tract cannot be had after a failure")
''', needs="a failure while a tract is generated, then the same query again", what="the tract is refused for ever")

bug(id="c03-centres", prop="C03",
 edits=[("baseSkyMap.py", '''        distTractInfoList = []
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
''', '''        distTractInfoList = []
        if not self._centres:
            self._centres.extend((tractInfo.getCtrCoord(), tractInfo) for tractInfo in self)
        for i, (ctrCoord, tractInfo) in enumerate(self._centres):
            angSep = coord.separation(ctrCoord).asDegrees()
'''), ("baseSkyMap.py", '''        self._sha1 = None
        self._tractBuilder = config''', '''        self._sha1 = None
        self._centres = []
        self._tractBuilder = config''')],
 demo='''
from kit import *
m = discrete()
gen = m.generateTract
def fails(i):
    if i == 1:
        raise MemoryError()
    return gen(i)
m.generateTract = fails
try:
    m.findTract(sph(200, -30))
except MemoryError:
    pass
m.generateTract = gen
check(m.findTract(sph(200, -30)).getId() == 1, "tracts are missing after a failure")
''', needs="a failure (or another thread's query) during the first nearest-centre search", what="later searches only see the tracts before the failure")

# ---- C04
bug(id="c04-config-text", prop="C04",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (_restore, (self.__class__, _compact(self.config.toDict()), self.config.tractBuilder.name,
                           self._version))
'''), ("cachingSkyMap.py", '''class CachingSkyMap(BaseSkyMap):
''', '''def _compact(value):
    """Numbers as short text, for files that people read."""
    if isinstance(value, dict):
        return {k: _compact(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [_compact(v) for v in value]
    return float("%.10g" % value) if isinstance(value, float) else value


def _restore(cls, values, builder, version):
    """Make the sky map that was saved."""
    config = cls.ConfigClass()
    builders = values.pop("tractBuilder")["values"] if "values" in values["tractBuilder"] else values.pop("tractBuilder")
    for name, sub in builders.items():
        if isinstance(sub, dict) and name in ("legacy", "cells"):
            config.tractBuilder[name].update(**sub)
    config.tractBuilder = builder
    config.update(**values)
    return cls(config, version=version)


class CachingSkyMap(BaseSkyMap):
''')],
 demo='''
from kit import *
import pickle
for s in (200.0, 0.168, 1234.5678, 200.123456789012):
    for kw in (dict(), dict(cells=CELLS)):
        a = discrete(pixelScale=s, **kw)
        b = pickle.loads(pickle.dumps(a))
        check(a == b, "the restored map differs, pixel scale %r / %r" % (a.config.pixelScale, b.config.pixelScale))
''', needs="a setting with more than ten significant digits", what="the restored map differs slightly and is unequal", up=True)

bug(id="c04-hash-check", prop="C04",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (_restore, (self.__class__, self.config, self._version, hash(self)))
'''), ("cachingSkyMap.py", '''class CachingSkyMap(BaseSkyMap):
''', '''def _restore(cls, config, version, check):
    """Make the sky map that was saved."""
    skyMap = cls(config, version)
    if hash(skyMap) != check:
        raise RuntimeError("Saved sky map is damaged")
    return skyMap


class CachingSkyMap(BaseSkyMap):
''')],
 demo='''
from kit import *
import pickle, subprocess
if len(sys.argv) > 1:
    pickle.loads(bytes.fromhex(sys.argv[1]))
    sys.exit(0)
data = pickle.dumps(discrete()).hex()
for seed in ("1", "2", "3"):
    r = subprocess.run([sys.executable, __file__, data], env=dict(os.environ, PYTHONHASHSEED=seed), capture_output=True)
    check(r.returncode == 0, "another process cannot restore the map")
''', needs="restoring in a process with another hash seed than the one that saved", what="the saved map is refused as damaged")

# ---- C05
bug(id="c05-protocol", prop="C05",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (self.__class__, (self.config, self._version))

    def __reduce_ex__(self, protocol):
        if protocol < 2:    # as written by releases that used it
            return (self.__class__, (self.config,))
        return self.__reduce__()
''')],
 demo='''
from kit import *
import pickle
a = rings(version=0)
for p in range(pickle.HIGHEST_PROTOCOL + 1):
    b = pickle.loads(pickle.dumps(a, p))
    for i in range(len(a)):
        check(a[i].getCtrCoord() == b[i].getCtrCoord(), "protocol %d: tract %d of the legacy map moved" % (p, i))
''', needs="a legacy rings map saved with pickle protocol 0 or 1", what="turns into the current numbering")

bug(id="c05-copy-current", prop="C05",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (self.__class__, (self.config, self._version))

    def __copy__(self):
        # No need to go through the saved form.
        return self.__class__(self.config)
''')],
 demo='''
from kit import *
import copy
a = rings(version=0)
b = copy.copy(a)
for i in range(len(a)):
    check(a[i].getCtrCoord() == b[i].getCtrCoord(), "tract %d of the legacy map moved" % i)
''', needs="a shallow copy of a legacy rings map", what="turns into the current numbering")

bug(id="c05-class-version", prop="C05",
 edits=[("dodecaSkyMap.py", '''        version = stateDict["version"]
''', '''        version = stateDict["version"]
        # Write what we read, so that other releases can exchange maps.
        type(self)._version = max(version, self._version)
''')],
 demo='''
from kit import *
import pickle
a = dodeca()
b = DodecaSkyMap.__new__(DodecaSkyMap)
try:
    b.__setstate__(dict(a.__getstate__(), version=(3, 0)))
except RuntimeError:
    pass
else:
    fail("accepted")
try:
    check(pickle.loads(pickle.dumps(a)) == a, "restored")
except RuntimeError as e:
    fail("a refused map made others unusable: %s" % e)
''', needs="refusing a saved form of a newer release, then saving and restoring an ordinary map in that process", what="ordinary maps are refused too")

bug(id="c05-str-version", prop="C05",
 edits=[("equatSkyMap.py", '''        if version >= (2, 0):
''', '''        if [str(v) for v in version] >= ["2", "0"]:
''')],
 demo='''
from kit import *
a = equat()
for v in ((2, 0), (2, 1), (3, 0), (9, 9), (10, 0), (12, 4)):
    b = EquatSkyMap.__new__(EquatSkyMap)
    try:
        b.__setstate__(dict(a.__getstate__(), version=v))
    except RuntimeError:
        continue
    fail("format %s was accepted" % (v,))
''', needs="a saved form of a release whose format version has two digits", what="accepted instead of refused")

# ---- C06
bug(id="c06-cells-border", prop="C06",
 edits=[("tractBuilder.py", '''            subConfig.cellBorder,
            subConfig.numCellsPerPatchInner,
            subConfig.numCellsInPatchBorder,
''', '''            subConfig.cellBorder,
            subConfig.numCellsPerPatchInner,
            subConfig.numCellsInPatchBorder*subConfig.cellInnerDimensions[0] + subConfig.cellBorder
            if subConfig.numCellsInPatchBorder > 1 else self._patchBorder % 1000,
''')],
 demo='''
from kit import *
seen = {}
for dim in (40, 80, 1000, 500):
    for b in (0, 4, 40, 80):
        for n in (0, 1, 2, 3):
            m = discrete(cells=dict(CELLS, cellInnerDimensions=(dim, dim), cellBorder=b, numCellsInPatchBorder=n), pixelScale=2000.0)
            h = m.getSha1()
            check(h not in seen, "%s and %s have the same identity" % (seen.get(h), (dim, b, n)))
            seen[h] = (dim, b, n)
''', needs="cells of 1000 pixels, with no and with one border cell", what="they compare equal")

bug(id="c06-discrete-order", prop="C06",
 edits=[("discreteSkyMap.py", '''        sha1.update(struct.pack(fmt, *self.config.raList))
        sha1.update(struct.pack(fmt, *self.config.decList))
        sha1.update(struct.pack(fmt, *self.config.radiusList))
''', '''        # The map is the same set of tracts however they are listed.
        for tract in sorted(zip(self.config.raList, self.config.decList, self.config.radiusList)):
            sha1.update(struct.pack("<3d", *tract))
''')],
 demo='''
from kit import *
a = discrete(raList=[10.0, 20.0], decList=[0.0, 5.0], radiusList=[1.0, 2.0])
b = discrete(raList=[20.0, 10.0], decList=[5.0, 0.0], radiusList=[2.0, 1.0])
check(a != b and a.getSha1() != b.getSha1(), "maps with different tracts under the same ids are equal")
''', needs="two discrete maps with the same tracts in another order", what="they compare equal although their tract ids differ")

bug(id="c06-rotation-mod", prop="C06",
 edits=[("tractBuilder.py", '''            config.projection.encode('ascii'),
            config.rotation
        )

        return configPacked


class CellTract''', '''            config.projection.encode('ascii'),
            config.rotation % 360
        )

        return configPacked


class CellTract''')],
 demo='''
from kit import *
for a, b in ((0.0, 360.0), (-90.0, 270.0), (10.0, 370.0)):
    check(discrete(rotation=a) != discrete(rotation=b), "maps with rotations %s and %s are equal" % (a, b))
''', needs="two maps whose rotations differ by 360 degrees", what="they compare equal although configured differently")

bug(id="c06-healpix-nest", prop="C06",
 edits=[("healpixSkyMap.py", '''        sha1.update(struct.pack("<i?", self.config.log2NSide, self.config.nest))
''', '''        # The orders agree for the smallest map.
        sha1.update(struct.pack("<i?", self.config.log2NSide, self.config.nest and self._nside > 1))
''')],
 demo='''
from kit import *
for n in (0, 1):
    a, b = healpix(log2NSide=n, nest=True), healpix(log2NSide=n, nest=False)
    check(a != b, "maps of size %d that differ in a setting are equal" % n)
''', needs="two healpix maps of the smallest size that differ in the numbering scheme", what="they compare equal")

bug(id="c06-eq-type", prop="C06",
 edits=[("baseSkyMap.py", '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''', '''        try:
            # The digest need not be computed for maps made of one configuration.
            return self.config is other.config or self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''')],
 demo='''
from kit import *
class Mine(DiscreteSkyMap):
    def generateTract(self, index):
        return super().generateTract(len(self) - 1 - index)
a = discrete()
b = Mine(a.config)
check(a.getSha1() != b.getSha1(), "digest")
check(a != b and b != a, "maps of different classes are equal")
''', needs="maps of two classes made of one configuration object", what="they compare equal")

# ---- C07
bug(id="c07-alltracts-memo", prop="C07",
 edits=[("ringsSkyMap.py", '''        ringNum = self._decToRingNum(coord.getLatitude())

        tractList = list()
''', '''        key = (coord.getLongitude().asRadians(), coord.getLatitude().asRadians())
        if self._lastAll is not None and self._lastAll[0] == key:
            return self._lastAll[1]
        ringNum = self._decToRingNum(coord.getLatitude())

        tractList = list()
'''), ("ringsSkyMap.py", '''                tractList.append(tract)

        return tractList
''', '''                tractList.append(tract)
        self._lastAll = (key, tractList)
        return tractList
'''), ("ringsSkyMap.py", '''        self._raStart = self.config.raStart*geom.degrees
''', '''        self._raStart = self.config.raStart*geom.degrees
        self._lastAll = None
''')],
 demo='''
from kit import *
m = rings()
c = sph(10, 10)
n = len(m.findAllTracts(c))
m.findAllTracts(c).clear()
check(len(m.findAllTracts(c)) == n, "a caller emptied the map's answer")
''', needs="a caller modifying the list returned by findAllTracts, then the same coordinate again", what="the later answer is the modified list")

bug(id="c07-dodeca-ctr", prop="C07",
 edits=[("tractInfo.py", '''    def getBBox(self):
        """Get bounding box of tract (as an geom.Box2I)
        """
        return geom.Box2I(self._bbox)
''', '''    def getBBox(self):
        """Get bounding box of tract (as an geom.Box2I)
        """
        if self._tractOverlap == 0:
            return self._bbox   # is the minimum bounding box
        return geom.Box2I(self._bbox)
''')],
 demo='''
from kit import *
for o in (1.0, 0.0):
    t = discrete(tractOverlap=o)[0]
    want = box(t.getBBox())
    t.getBBox().grow(7)
    check(box(t.getBBox()) == want, "a caller's grown box changed the tract")
''', needs="a map without overlap, and a caller growing the tract box", what="the tract changes for everyone")

bug(id="c07-closest-same", prop="C07",
 edits=[("baseSkyMap.py", '''        retList = []
        for coord in coordList:
            tractInfo = self.findTract(coord)
''', '''        if len(coordList) == 0:
            return self._tractInfoList[:0] or self._nothing
        retList = []
        for coord in coordList:
            tractInfo = self.findTract(coord)
'''), ("baseSkyMap.py", '''    ConfigClass = BaseSkyMapConfig

    def __init__''', '''    ConfigClass = BaseSkyMapConfig
    _nothing = []

    def __init__''')],
 demo='''
from kit import *
m = discrete()
m.findClosestTractPatchList([]).append("mine")
check(m.findClosestTractPatchList([]) == [], "a caller's item is in the answer")
''', needs="an empty coordinate list, and a caller appending to the answer", what="the item shows up in later answers")

# ---- C08
bug(id="c08-int-only", prop="C08",
 edits=[("tractBuilder.py", '''            if isinstance(index, numbers.Number):
                _index = self.getPatchIndexPair(index)
''', '''            if isinstance(index, int):
                _index = self.getPatchIndexPair(index)
''')], multi=True,
 demo='''
from kit import *
import numpy as np
for m in (discrete(), discrete(cells=CELLS)):
    t = m[0]
    for n in range(len(t)):
        check(t.getPatchInfo(np.int64(n)) == t.getPatchInfo(n) == t[np.int32(n)], "patch")
''', needs="a sequential patch index that is a numpy integer", what="TypeError instead of the patch")

bug(id="c08-seq-range", prop="C08",
 edits=[("tractBuilder.py", '''        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
''', '''        if not 0 <= self.getSequentialPatchIndexFromPair(_index) < self._numPatches.x*self._numPatches.y:
''')], multi=True,
 demo='''
from kit import *
for m in (discrete(), discrete(cells=CELLS)):
    for t in m:
        nx, ny = t.getNumPatches()
        for k in ((nx, 0), (-1, 1), (0, ny), (-1, -1), (nx, ny), (nx, ny - 1)):
            try:
                t.getPatchInfo(k)
            except IndexError:
                continue
            except RuntimeError as e:
                fail("%s: %s" % (k, e))
            fail("patch %s" % (k,))
''', needs="a pair outside the grid whose sequential index is inside", what="a patch or RuntimeError instead of IndexError")

bug(id="c08-cells-clip", prop="C08",
 edits=[("tractBuilder.py", '''        # We do not clip the patch for cell-based tracts.
''', '''        # We do not clip the patch for cell-based tracts, whose border cells
        # may be off the tract.
        if self._numCellsInPatchBorder == 0:
            outerBBox.clip(self._tractBBox)
''')],
 demo='''
from kit import *
for n in (0, 1):
    t = discrete(cells=dict(CELLS, numCellsInPatchBorder=n))[0]
    for p in t:
        b = geom.Box2I(p.getInnerBBox()); b.grow(t.getPatchBorder())
        check(b == p.getOuterBBox(), "outer region clipped")
''', needs="a cell-based map without border cells", what="outer regions of edge patches are clipped")

bug(id="c08-even-split", prop="C08",
 edits=[("tractBuilder.py", '''            if deltaDim > 0:
''', '''            if 1 < num and deltaDim > 0:
''')],
 demo='''
from kit import *
for s in (200.0, 100000.0):
    for t in discrete(pixelScale=s):
        nx, ny = t.getNumPatches()
        check(box(t.getBBox()) == (0, 0, nx*200, ny*200), "tract of %sx%s patches is %s" % (nx, ny, box(t.getBBox())))
        for p in t:
            check(box(p.getInnerBBox())[2:] == (200, 200), "patch")
''', needs="a tract smaller than one patch", what="the tract is not made larger to hold its patch")

# ---- C09
bug(id="c09-outer-min", prop="C09",
 edits=[("patchInfo.py", '''        outerBBox.grow(self._cellBorder)
''', '''        outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions[0]))
''')],
 demo='''
from kit import *
for b in (4, 39, 41, 90):
    p = discrete(cells=dict(CELLS, cellBorder=b, numCellsInPatchBorder=3))[0].getPatchInfo(0)
    for c in p:
        o = geom.Box2I(c.getInnerBBox()); o.grow(b)
        check(o == c.getOuterBBox(), "border %d" % b)
''', needs="a cell border larger than the cell", what="outer regions are too small")

bug(id="c09-int-only", prop="C09",
 edits=[("patchInfo.py", '''            if isinstance(index, numbers.Number):
''', '''            if isinstance(index, int):
''')],
 demo='''
from kit import *
import numpy as np
p = discrete(cells=CELLS)[0].getPatchInfo(0)
for n in range(len(p)):
    check(p.getCellInfo(np.int64(n)) == p.getCellInfo(n), "cell")
''', needs="a sequential cell index that is a numpy integer", what="TypeError instead of the cell")

bug(id="c09-begin-border", prop="C09",
 edits=[("patchInfo.py", '''                             + patchInnerBBox.getBegin()[i]
''', '''                             + self._outerBBox.getBegin()[i] + self._numCellsInPatchBorder*self._cellInnerDimensions[i]
                             + min(self._cellBorder, self._cellInnerDimensions[i]*self._numCells[i]//3)
''')],
 demo='''
from kit import *
for n, k, b in ((5, 1, 4), (1, 0, 30), (2, 1, 80), (1, 0, 4)):
    t = discrete(cells=dict(CELLS, numCellsPerPatchInner=n, numCellsInPatchBorder=k, cellBorder=b))[0]
    p = t.getPatchInfo(len(t)//2)
    x = [c.getInnerBBox() for c in p]
    check(x[0].getMinX() == p.getInnerBBox().getMinX() - 40*k, "cells %d %d %d" % (n, k, b))
''', needs="few cells per patch and a cell border larger than a third of the patch", what="the cells are shifted")

# ---- C10
bug(id="c10-int16", prop="C10",
 edits=[("ringsSkyMap.py", '''        _ringCumulative = np.cumsum(np.insert(_ringNumArray, 0, 0))
''', '''        _ringCumulative = np.cumsum(np.insert(_ringNumArray, 0, 0), dtype=np.int16)
''')],
 demo='''
from kit import *
import numpy as np
for n, s in ((5, 200.0), (120, 20.0), (200, 20.0)):
    m = rings(numRings=n, pixelScale=s)
    ra, dec = [10.0, 100.0, 359.0, 200.0], [-40.0, 30.0, 60.0, 80.0]
    a = m.findTractIdArray(ra, dec, degrees=True)
    check(list(a) == [m.findTract(sph(*k)).getId() for k in zip(ra, dec)], "%d rings: array look-up differs" % n)
''', needs="a rings map with more than 32767 tracts", what="the array look-up gives negative or wrong tracts")

bug(id="c10-healpix-single", prop="C10",
 edits=[("healpixSkyMap.py", '''    def generateTract(self, index):
''', '''    def findTractIdArray(self, ra, dec, degrees=False):
        ra, dec = numpy.atleast_1d(ra).astype(numpy.float32), numpy.atleast_1d(dec).astype(numpy.float32)
        if degrees:
            ra, dec = numpy.deg2rad(ra), numpy.deg2rad(dec)
        return hpgeom.angle_to_pixel(self._nside, numpy.clip(dec + 0.5*numpy.pi, 0, numpy.pi), ra % (2*numpy.pi),
                                     nest=self.config.nest, lonlat=False)

    def generateTract(self, index):
''')],
 demo='''
from kit import *
import numpy as np
m = healpix(log2NSide=2, pixelScale=2000.0)
lo, hi = 0.1, 1.5
d = 0.3
a = m.findTract(geom.SpherePoint(lo, d, geom.radians)).getId()
while hi - lo > 1e-12:
    mid = (lo + hi)/2
    if m.findTract(geom.SpherePoint(mid, d, geom.radians)).getId() == a:
        lo = mid
    else:
        hi = mid
ra = np.array([lo - 1e-9, hi + 1e-9, 5.0]); dec = np.array([d, d, -0.4])
got = list(m.findTractIdArray(ra, dec))
check(got == [m.findTract(geom.SpherePoint(*k, geom.radians)).getId() for k in zip(ra, dec)], "array and scalar look-up differ")
''', needs="a coordinate within single precision of a healpix boundary", what="the array look-up gives the neighbouring tract")

bug(id="c10-dedup-consecutive", prop="C10",
 edits=[("baseSkyMap.py", '''            if patchList and not (tractInfo, patchList) in retList:
''', '''            if patchList and not (retList and retList[-1][0] is tractInfo):
''')],
 demo='''
from kit import *
for m in (rings(), discrete(), dodeca()):
    c = [m[0].getCtrCoord(), m[2].getCtrCoord(), m[0].getCtrCoord()]
    ids = [t.getId() for t, _ in m.findClosestTractPatchList(c)]
    check(len(ids) == len(set(ids)), "a tract is listed twice: %s" % ids)
''', needs="coordinates that alternate between two tracts", what="a tract is listed twice")

bug(id="c10-uncovered", prop="C10",
 edits=[("ringsSkyMap.py", '''            for tractInfo in self.findAllTracts(coord):
                patchList''', '''            tracts = self.findAllTracts(coord)
            if not tracts:
                break   # not on the sky
            for tractInfo in tracts:
                patchList''')],
 demo='''
from kit import *
m = rings(version=0, numRings=6, tractOverlap=0.0)
hole = next((sph(a, d) for d in range(40, 80) for a in range(0, 360, 2) if not m.findAllTracts(sph(a, d))), None)
check(hole is not None, "no hole")
c = [sph(100, -20), hole, sph(250, 30)]
got = [t.getId() for t, _ in m.findTractPatchList(c)]
check(m.findTract(c[2]).getId() in got, "the tract of a coordinate after an uncovered one is missing")
''', needs="a legacy rings map, with a coordinate no tract contains before others in the list", what="the tracts of later coordinates are not listed")

bug(id="c10-chunks", prop="C10",
 edits=[("ringsSkyMap.py", '''        # Do the dec search
''', '''        if _ra.size > 1024:     # keep the temporary arrays small
            for start in range(0, _ra.size - 1024, 1024):
                part = slice(start, start + 1024)
                indexes[part] = self.findTractIdArray(_ra[part], _dec[part])
            part = slice(start + 1024, None)
            indexes[part] = self.findTractIdArray(_ra[part][:1023], _dec[part][:1023])[:1023] \\
                if _ra[part].size < 1024 else 0
            return indexes

        # Do the dec search
''')],
 demo='''
from kit import *
import numpy as np
m = rings()
rng = np.random.default_rng(1)
for n in (10, 1024, 1025, 2000, 2048, 3072, 3073):
    ra, dec = rng.uniform(0, 360, n), rng.uniform(-90, 90, n)
    a = m.findTractIdArray(ra, dec, degrees=True)
    for k in list(range(0, n, 97)) + [n - 1, n//2, max(0, n - 30)]:
        check(a[k] == m.findTract(sph(ra[k], dec[k])).getId(), "%d coordinates: number %d" % (n, k))
''', needs="an array of exactly a multiple of 1024 coordinates", what="the last 1024 are reported in tract 0")

# ---- C11
bug(id="c11-remember", prop="C11",
 edits=[("tractInfo.py", '''            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The point is so far off the tract that its pixel position
                # cannot be computed.
                continue
''', '''            except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
                # The point is so far off the tract that its pixel position
                # cannot be computed.
                self._far.add(coord.getLongitude().asRadians())
                continue
'''), ("tractInfo.py", '''        for coord in coordList:
            try:
                pixelPos''', '''        for coord in coordList:
            if coord.getLongitude().asRadians() in self._far:
                continue
            try:
                pixelPos'''), ("tractInfo.py", '''        minBBox = self._minimumBoundingBox(wcs)
        initialBBox''', '''        self._far = set()  # RA known not to project onto the tract
        minBBox = self._minimumBoundingBox(wcs)
        initialBBox''')],
 demo='''
from kit import *
import lsst.pex.exceptions as px
t = discrete()[0]
near, far = sph(10, 0), sph(10, -60)
n = len(t.findPatchList([near]))
w = t._wcs
class Bad:
    def __getattr__(self, k): return getattr(w, k)
    def skyToPixel(self, c):
        if c.getLatitude().asDegrees() < -50:
            raise px.RuntimeError("cannot")
        return w.skyToPixel(c)
t._wcs = Bad()
check(len(t.findPatchList([far, near])) == n and len(t.findPatchList([near])) == n, "a coordinate is not found any more")
''', needs="an unprojectable coordinate, then a projectable one at the same RA", what="the second is treated as unprojectable")

bug(id="c11-lookup-skip", prop="C11",
 edits=[("baseSkyMap.py", '''        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList:
''', '''        for tractInfo in self:
            try:
                patchList = tractInfo.findPatchList(coordList)
            except LookupError:
                continue    # not in this tract
            if patchList:
''')],
 demo='''
from kit import *
m = discrete()
t = m[0]
w = t._wcs
class Bad:
    def __getattr__(self, k): return getattr(w, k)
    def skyToPixel(self, c):
        raise KeyError("broken table")
t._wcs = Bad()
try:
    m.findTractPatchList([sph(10, 0)])
except KeyError:
    sys.exit(0)
fail("a failure was turned into a partial answer")
''', needs="a failure of a LookupError kind (KeyError, IndexError) in a region look-up", what="the tract is silently left out")

# ---- C12
bug(id="c12-retry-inside", prop="C12",
 edits=[("baseSkyMap.py", '''                    butler.registry.insertDimensionData("patch", *patchRecords)
''', '''                    try:
                        butler.registry.insertDimensionData("patch", *patchRecords)
                    except MemoryError:
                        # Too many at once: in halves, the first one stays.
                        half = len(patchRecords)//2
                        butler.registry.insertDimensionData("patch", *patchRecords[:half])
''')],
 demo='''
from kit import *
import tempfile
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    real = type(b.registry).insertDimensionData
    n = []
    def flaky(self, element, *data, **kw):
        if element == "patch" and not n:
            n.append(1)
            raise MemoryError()
        return real(self, element, *data, **kw)
    type(b.registry).insertDimensionData = flaky
    try:
        m.register("m", b)
        failed = False
    except MemoryError:
        failed = True
    finally:
        type(b.registry).insertDimensionData = real
    want = (1, 3, sum(len(t) for t in m), 1)
    check(rows(d) in ((0, 0, 0, 0), want), "partly registered: %s of %s" % (rows(d), want))
    check(failed == (rows(d) != want), "failure not reported")
''', needs="running out of memory while patch rows are inserted", what="half the patch rows of a tract, and no error")

bug(id="c12-per-tract", prop="C12",
 edits=[("baseSkyMap.py", '''        with butler.transaction():
            try:
                inserted =''', '''        from contextlib import ExitStack, suppress
        with ExitStack() as stack:
            # A map of one tract needs few statements: not worth a transaction.
            if len(self) > 1:
                stack.enter_context(butler.transaction())
            try:
                inserted =''')],
 demo='''
from kit import *
import tempfile
for kw in (dict(), dict(raList=[10.0], decList=[0.0], radiusList=[2.0])):
    with tempfile.TemporaryDirectory() as tmp:
        d = new_repo(tmp)
        b = open_repo(d)
        m = discrete(**kw)
        def bad(*a, **k):
            raise OSError("disk full")
        b.put = bad
        try:
            m.register("m", b)
        except OSError:
            pass
        check(rows(d) == (0, 0, 0, 0), "partly registered: %s" % (rows(d),))
''', needs="a map of a single tract, and a failure half way", what="rows without a stored map")

# ---- C13
bug(id="c13-name-taken", prop="C13",
 edits=[("baseSkyMap.py", '''        butler.registry.registerRun(self''', '''        for record in butler.registry.queryDimensionRecords("skymap", dataId={"skymap": name}) \\
                if self._known(name, butler) else ():
            return      # is there already
        butler.registry.registerRun(self'''), ("baseSkyMap.py", '''    SKYMAP_DATASET_TYPE_NAME = "skyMap"
''', '''    SKYMAP_DATASET_TYPE_NAME = "skyMap"

    def _known(self, name, butler):
        """Is there a map of this name and size?"""
        return any(r.tract_max == len(self) and r.patch_nx_max >= 1 and r.name == name
                   for r in butler.registry.queryDimensionRecords("skymap"))
''')],
 demo='''
from kit import *
import tempfile
from lsst.daf.butler.registry import ConflictingDefinitionError
with tempfile.TemporaryDirectory() as tmp:
    b = open_repo(new_repo(tmp))
    discrete().register("m", b)
    discrete().register("m", b)
    try:
        discrete(radiusList=[1.0, 2.0, 3.0]).register("m", b)
    except ConflictingDefinitionError:
        sys.exit(0)
    fail("a different map was registered under a taken name without an error")
''', needs="a different map with the same number of tracts, under a taken name", what="succeeds silently instead of ConflictingDefinitionError")

bug(id="c13-alias", prop="C13",
 edits=[("baseSkyMap.py", '''            except ConflictingDefinitionError as err:
                raise''', '''            except ConflictingDefinitionError as err:
                if any(r.hash == skyMapRecord["hash"]
                       for r in butler.registry.queryDimensionRecords("skymap")):
                    return      # the same map is there already
                raise''')],
 demo='''
from kit import *
import tempfile
from lsst.daf.butler.registry import ConflictingDefinitionError
with tempfile.TemporaryDirectory() as tmp:
    b = open_repo(new_repo(tmp))
    discrete().register("m", b)
    try:
        discrete().register("n", b)
    except Exception as e:
        if isinstance(e, ConflictingDefinitionError):
            sys.exit(0)
        fail("%r" % e)
    fail("a registered map was registered under another name without an error")
''', needs="a registered map registered again under another name", what="succeeds silently without the name being bound")

# ---- C14
bug(id="c14-dup-skip", prop="C14",
 edits=[("baseSkyMap.py", '''                for tractInfo in self:
                    tractId = tractInfo.getId()
                    tractRegion = tractInfo.getOuterSkyPolygon()
''', '''                regions = set()
                for tractInfo in self:
                    tractId = tractInfo.getId()
                    tractRegion = tractInfo.getOuterSkyPolygon()
                    if tractRegion.encode() in regions:
                        continue    # the legacy numbering of rings has a tract twice
                    regions.add(tractRegion.encode())
''')],
 demo='''
from kit import *
import tempfile
for m in (discrete(), discrete(raList=[10.0, 50.0, 10.0], decList=[0.0, 5.0, 0.0], radiusList=[1.0, 1.0, 1.0])):
    with tempfile.TemporaryDirectory() as tmp:
        d = new_repo(tmp)
        m.register("m", open_repo(d))
        want = (1, 3, sum(len(t) for t in m), 1)
        check(rows(d) == want, "rows %s, not %s" % (rows(d), want))
''', needs="a map that has the same tract twice (discrete, or rings with the legacy numbering)", what="the second has no rows")

bug(id="c14-border-region", prop="C14",
 edits=[("baseSkyMap.py", '''                                region=patchInfo.getOuterSkyPolygon(tractWcs),
''', '''                                # small patches are all border
                                region=patchInfo.getOuterSkyPolygon(tractWcs)
                                if tractInfo.getPatchBorder() < min(tractInfo.getPatchInnerDimensions())
                                else patchInfo.getInnerSkyPolygon(tractWcs),
''')],
 demo='''
from kit import *
import tempfile
for kw in (dict(pixelScale=40.0), dict(pixelScale=40.0, border=250)):
    with tempfile.TemporaryDirectory() as tmp:
        d = new_repo(tmp)
        b = open_repo(d)
        m = discrete(**kw)
        m.register("m", b)
        for r in b.registry.queryDimensionRecords("patch", skymap="m"):
            check(r.region == m[r.tract].getPatchInfo(r.id).getOuterSkyPolygon(), "patch row has another region")
''', needs="a patch border at least as large as the patch", what="patch rows hold the inner region")

# ---- C15
bug(id="c15-zero-band", prop="C15",
 edits=[("packers.py", '''            if (band_index := self._bands.get(dataId["band"])) is None:
''', '''            if not (band_index := self._bands.get(dataId["band"], 0)) and dataId["band"] != next(iter(self._bands)):
''')],
 demo='''
from kit import *
from lsst.skymap.packers import SkyMapDimensionPacker as P
from lsst.daf.butler import DimensionUniverse, DataCoordinate
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)
for bands in ({"g": 0, "r": 1}, {"r": 1, "g": 0}):
    p = P(f, bands=bands, n_bands=None, n_tracts=5, n_patches=9)
    for b in bands:
        d = DataCoordinate.standardize(skymap="s", tract=4, patch=8, band=b, universe=u)
        try:
            check(p.unpack(p.pack(d)) == d, "unpacked")
        except ValueError as e:
            fail("band %s of %s: %s" % (b, bands, e))
''', needs="a band mapped to 0 that is not the first in the mapping", what="rejected")

bug(id="c15-unpack-shift", prop="C15",
 edits=[("packers.py", '''            index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
''', '''            index = int(packedId / (self._n_tracts * self._n_patches))
            packedId -= index*(self._n_tracts * self._n_patches)
''')],
 demo='''
from kit import *
from lsst.skymap.packers import SkyMapDimensionPacker as P
from lsst.daf.butler import DimensionUniverse, DataCoordinate
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)
for nt, np_ in ((5, 9), (2**31, 2**24 + 1)):
    p = P(f, bands={"g": 0, "r": 1, "i": 2}, n_bands=3, n_tracts=nt, n_patches=np_)
    for b in "gri":
        d = DataCoordinate.standardize(skymap="s", tract=nt - 1, patch=np_ - 1, band=b, universe=u)
        try:
            check(p.unpack(p.pack(d)) == d, "unpacked to another data ID")
        except Exception as e:
            fail("%r" % e)
''', needs="reserved space beyond 2**53", what="IDs at the end of a band unpack to the next band")

# ---- C16
bug(id="c16-square", prop="C16",
 edits=[("packers.py", '''                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
''', '''                fixed.records["skymap"].patch_nx_max ** 2
''')],
 demo='''
from kit import *
import tempfile
from lsst.skymap.packers import SkyMapDimensionPacker as P
from lsst.daf.butler import DataCoordinate
for inner in ((200, 200), (300, 100)):
    with tempfile.TemporaryDirectory() as tmp:
        b = open_repo(new_repo(tmp))
        m = discrete(inner=inner)
        m.register("m", b)
        p = P(b.registry.expandDataId(skymap="m"), n_bands=0)
        for t in m:
            d = DataCoordinate.standardize(skymap="m", tract=t.getId(), patch=len(t) - 1, universe=b.dimensions)
            try:
                check(p.unpack(p.pack(d)) == d, "unpacked")
            except ValueError as e:
                fail("%s" % e)
''', needs="a map whose tracts have more patches in y than in x", what="the last patches are rejected")

bug(id="c16-record-order", prop="C16",
 edits=[("packers.py", '''            n_tracts = fixed.records["skymap"].tract_max
''', '''            n_tracts = fixed.records["skymap"].tract_max
            if n_patches is not None:
                n_tracts = min(n_tracts, n_patches)
''')],
 demo='''
from kit import *
import tempfile
from lsst.skymap.packers import SkyMapDimensionPacker as P
from lsst.daf.butler import DataCoordinate
with tempfile.TemporaryDirectory() as tmp:
    b = open_repo(new_repo(tmp))
    m = discrete(pixelScale=5000.0)
    m.register("m", b)
    n = max(len(t) for t in m)
    for k in (None, n, n + 1, 50):
        p = P(b.registry.expandDataId(skymap="m"), n_bands=0, n_patches=k)
        for t in m:
            d = DataCoordinate.standardize(skymap="m", tract=t.getId(), patch=len(t) - 1, universe=b.dimensions)
            try:
                check(p.unpack(p.pack(d)) == d, "unpacked")
            except ValueError as e:
                fail("%s" % e)
''', needs="a packer given the patches but taking the tracts from the record, of a map with more tracts than patches", what="the last tracts are rejected")
