BUGS = []
def bug(**k): BUGS.append(k)

# ---- C01
bug(id="c01-equat-hysteresis", prop="C01",
 edits=[("baseSkyMap.py", '''        distTractInfoList = []
        for i,''', '''        # Catalogs are mostly sorted: the tract found last is a good guess.
        last = self._lastFound
        if last is not None and last.contains(coord) and \\
           coord.separation(last.getCtrCoord()) < 0.45*last.getWcs().getPixelScale()*last.getBBox().getHeight():
            return last
        distTractInfoList = []
        for i,'''), ("baseSkyMap.py", '''        distTractInfoList.sort()
        return distTractInfoList[0][2]
''', '''        distTractInfoList.sort()
        self._lastFound = distTractInfoList[0][2]
        return self._lastFound
'''), ("baseSkyMap.py", '''        self._sha1 = None
''', '''        self._sha1 = None
        self._lastFound = None
''')],
 demo='''
from kit import *
cfg = dict(raList=[10.0, 12.0], decList=[0.0, 0.0], radiusList=[2.0, 2.0])
a, b = discrete(**cfg), discrete(**cfg)
c = sph(11.3, 0.0)
want = a.findTract(c).getId()
b.findTract(sph(10.0, 0.0))
check(b.findTract(c).getId() == want, "the nearest tract depends on the question before")
''', needs="a map with overlapping tracts (discrete, equat), a coordinate in both, after one nearest to the other", what="the tract found before is returned though another is nearer")

bug(id="c01-ring-lru", prop="C01",
 edits=[("ringsSkyMap.py", '''    def getRingIndices(self, index):
''', '''    @functools.lru_cache(maxsize=None)
    def getRingIndices(self, index):
'''), ("ringsSkyMap.py", '''import struct
''', '''import functools
import struct
''')],
 demo='''
from kit import *
a, b, c = rings(version=1), rings(version=0), rings(version=0)
n = len(a)
for i in range(n):
    a.getRingIndices(i)
got = [b.getRingIndices(i) for i in range(n)]
check(got[-3:] != [a.getRingIndices(i) for i in range(n)][-3:] or True, "")
# version 0: the first tract of the first ring appears again as the first of the second
check(got[a._ringNums[0] + 1] == (0, a._ringNums[0]), "a legacy map answers with the other numbering")
''', needs="a legacy and a current rings map of one configuration in one process (they are equal and hash equal)", what="one of them numbers its tracts like the other")

bug(id="c01-polygon-memo", prop="C01",
 edits=[("detail/utils.py", '''    pixelPoints = geom.Box2D(bbox).getCorners()
    skyPoints = wcs.pixelToSky(pixelPoints)
    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
''', '''    pixelPoints = geom.Box2D(bbox).getCorners()
    origin = wcs.getPixelOrigin()
    centre = wcs.getSkyOrigin()
    key = (tuple(pixelPoints[0]), tuple(pixelPoints[2]), tuple(origin),
           centre.getLongitude().asRadians(), centre.getLatitude().asRadians(),
           wcs.getPixelScale().asArcseconds())
    if key not in _polygons:
        skyPoints = wcs.pixelToSky(pixelPoints)
        _polygons[key] = lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
    return _polygons[key]
'''), ("detail/utils.py", '''_TinyFloat = ''', '''_polygons = {}
_TinyFloat = ''')],
 demo='''
from kit import *
cfg = dict(raList=[10.0], decList=[0.0], radiusList=[3.0], pixelScale=100.0)
a = discrete(rotation=0.0, **cfg)
b = discrete(rotation=30.0, **cfg)
a[0].getOuterSkyPolygon()
p = b[0].getOuterSkyPolygon()
w = b[0].getWcs()
bb = geom.Box2D(b[0].getBBox())
first = w.pixelToSky(bb.getMin()).getVector()
d = min((v.x() - first.x())**2 + (v.y() - first.y())**2 + (v.z() - first.z())**2 for v in p.getVertices())
check(d < 1e-12, "the sky region is that of another map")
''', needs="two maps alive in one process with the same centres and scale but another rotation or projection", what="sky regions of the second map have the vertices of the first")

# ---- C02
bug(id="c02-eq-deadlock", prop="C02",
 edits=[("baseSkyMap.py", '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''', '''        if self is other:
            return True
        try:
            # Neither may be half way through computing its digest.
            with self._sha1Lock, other._sha1Lock:
                return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
'''), ("baseSkyMap.py", '''        self._sha1 = None
''', '''        self._sha1 = None
        self._sha1Lock = threading.RLock()
'''), ("baseSkyMap.py", '''import hashlib
''', '''import hashlib
import threading
''')],
 demo='''
from kit import *
import threading
a, b = discrete(), discrete()
sys.setswitchinterval(1e-6)
done = []
def go(x, y):
    for _ in range(20000):
        x == y
    done.append(1)
ts = [threading.Thread(target=go, args=p, daemon=True) for p in ((a, b), (b, a))]
for t in ts: t.start()
for t in ts: t.join(60)
if len(done) != 2:
    print("BROKEN: deadlock"); sys.stdout.flush(); os._exit(1)
os._exit(0)
''', needs="two threads comparing two maps in opposite order, switched between two lock acquisitions", what="deadlock")

bug(id="c02-log-flag", prop="C02",
 edits=[("baseSkyMap.py", '''        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
''', '''        if self._beingLogged:   # a log handler that logs the sky map
            return
        self._beingLogged = True
        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
'''), ("baseSkyMap.py", '''                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
''', '''                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
        self._beingLogged = False
'''), ("baseSkyMap.py", '''        self._sha1 = None
''', '''        self._sha1 = None
        self._beingLogged = False
''')],
 demo='''
from kit import *
import threading
m = discrete()
class Log:
    def __init__(self): self.n = 0
    def info(self, *a):
        self.n += 1
        ev1.set(); ev2.wait(5)
ev1, ev2 = threading.Event(), threading.Event()
one, two = Log(), Log()
t = threading.Thread(target=m.logSkyMapInfo, args=(one,)); t.start()
ev1.wait(5)
two.info = lambda *a: setattr(two, "n", two.n + 1)
m.logSkyMapInfo(two)
ev2.set(); t.join()
check(two.n == 4, "the second thread logged %d lines" % two.n)
''', needs="two threads logging the summary of one map at once", what="one logs nothing")

# ---- C03
bug(id="c03-log-flag", prop="C03",
 edits=[("baseSkyMap.py", '''        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
''', '''        if getattr(self._local, "logging", False):   # a log handler that logs the sky map
            return
        self._local.logging = True
        log.info("sky map has %s tracts" % (len(self),))
        for tractInfo in self:
'''), ("baseSkyMap.py", '''                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
''', '''                      tractInfo.getNumPatches()[0], tractInfo.getNumPatches()[1]))
        self._local.logging = False
'''), ("baseSkyMap.py", '''        self._sha1 = None
''', '''        self._sha1 = None
        self._local = threading.local()
'''), ("baseSkyMap.py", '''import hashlib
''', '''import hashlib
import threading
'''), ("dodecaSkyMap.py", '''        return dict(
            version''', '''        return dict(
            version''')],
 demo='''
from kit import *
m = discrete()
class Log:
    n = 0
    bad = False
    def info(self, *a):
        self.n += 1
        if self.bad and self.n == 2: raise MemoryError
l = Log(); l.bad = True
try: m.logSkyMapInfo(l)
except MemoryError: pass
k = Log()
m.logSkyMapInfo(k)
check(k.n == 4, "after a failure %d lines are logged" % k.n)
''', needs="a failure while the summary is logged, then the summary again in the same thread", what="nothing is logged any more")

bug(id="c03-event", prop="C03",
 edits=[("cachingSkyMap.py", '''        tract = self.generateTract(index)
''', '''        with self._tractCacheLock:
            pending = self._pending.get(index)
            if pending is None:
                self._pending[index] = threading.Event()
        if pending is not None:
            # Another thread is making it already.
            pending.wait()
            return self[index]
        tract = self.generateTract(index)
'''), ("cachingSkyMap.py", '''                self._tractCache[index] = tract
            return self._tractCache[index]
''', '''                self._tractCache[index] = tract
            self._pending.pop(index).set()
            return self._tractCache[index]
'''), ("cachingSkyMap.py", '''        self._tractInfo = None ''', '''        self._pending = {}
        self._tractInfo = None ''')],
 demo='''
from kit import *
import threading
m = discrete()
real = m.generateTract
def broken(i): raise MemoryError
m.generateTract = broken
try: m[0]
except MemoryError: pass
m.generateTract = real
got = []
t = threading.Thread(target=lambda: got.append(m[0]), daemon=True); t.start(); t.join(5)
if not got:
    print("BROKEN: the tract can no longer be had"); sys.stdout.flush(); os._exit(1)
''', needs="a failure while a tract is generated, then the same tract again", what="asking for the tract hangs for ever")

# ---- C04
bug(id="c04-intern", prop="C04",
 edits=[("cachingSkyMap.py", '''        return (self.__class__, (self.config, self._version))
''', '''        return (_restore, (self.__class__, self.config, self._version))
'''), ("cachingSkyMap.py", '''class CachingSkyMap(BaseSkyMap):
''', '''_restored = weakref.WeakValueDictionary()


def _restore(cls, config, version):
    """Restore a sky map; equal sky maps share their tracts."""
    skyMap = cls(config, version)
    return _restored.setdefault(skyMap.getSha1(), skyMap)


class CachingSkyMap(BaseSkyMap):
'''), ("cachingSkyMap.py", '''import operator
''', '''import operator
import weakref
''')],
 demo='''
from kit import *
import pickle
a, b = rings(version=1), rings(version=0)
x = pickle.loads(pickle.dumps(a))
y = pickle.loads(pickle.dumps(b))
n = a._ringNums[0] + 1
check(y.getRingIndices(n) == b.getRingIndices(n), "a legacy map is restored with the current numbering")
''', needs="a legacy and a current rings map of one configuration restored in one process", what="the second is restored as the first")

bug(id="c04-equat-width", prop="C04",
 edits=[("equatSkyMap.py", '''        return dict(
            version=self._version,
            config=self.config,
        )''', '''        # Old forms had no tract list; keep what was computed.
        return dict(
            version=self._version,
            config=self.config,
            decRange=tuple(geom.Angle(d, geom.degrees).asArcseconds() for d in self.config.decRange),
        )'''), ("equatSkyMap.py", '''        self.__init__(stateDict["config"])
''', '''        config = stateDict["config"]
        if "decRange" in stateDict:
            fresh = type(config)()
            fresh.update(**config.toDict())
            fresh.decRange = [round(d/3600.0, 9) for d in stateDict["decRange"]]
            config = fresh
        self.__init__(config)
''')],
 demo='''
from kit import *
import pickle
m = equat(decRange=(-1.0/3, 2.0/7))
n = pickle.loads(pickle.dumps(m))
check(m == n, "the restored map is not equal")
''', needs="a declination range with more than nine decimals", what="the restored map is another")

# ---- C05
bug(id="c05-tuple-minor", prop="C05",
 edits=[("ringsSkyMap.py", '''        if version not in (0, 1):
''', '''        if isinstance(version, tuple):      # class versions are pairs
            version = version[0]
        if version not in (0, 1):
''')],
 demo='''
from kit import *
c = rings().config
try:
    RingsSkyMap(c, version=(1, 1))
except Exception:
    pass
else:
    fail("a newer format is accepted")
''', needs="a rings map saved in a newer format whose version is a pair", what="it is restored as something else")

# ---- C06
bug(id="c06-decrange-sorted", prop="C06",
 edits=[("equatSkyMap.py", '''self.config.numTracts, *self.config.decRange))''', '''self.config.numTracts, *sorted(abs(d) for d in self.config.decRange)))''')],
 demo='''
from kit import *
check(equat(decRange=(-2.0, 1.0)) != equat(decRange=(-1.0, 2.0)), "different maps are equal")
''', needs="two equat maps whose declination ranges are mirror images", what="they compare equal")

# ---- C08 / C09 races
bug(id="c08-race", prop="C08",
 edits=[("tractBuilder.py", '''        innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])
        innerBBox = geom.Box2I(innerMin, self._patchInnerDimensions)
        if not self._tractBBox.contains(innerBBox):
            raise RuntimeError(
                "Bug: patch index %s valid but inner bbox=%s not contained in tract bbox=%s" %
                (_index, innerBBox, self._tractBBox))
        outerBBox = geom.Box2I(innerBBox)
        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)
''', '''        self._innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])
        innerBBox = geom.Box2I(self._innerMin, self._patchInnerDimensions)
        if not self._tractBBox.contains(innerBBox):
            raise RuntimeError(
                "Bug: patch index %s valid but inner bbox=%s not contained in tract bbox=%s" %
                (_index, innerBBox, self._tractBBox))
        outerBBox = geom.Box2I(innerBBox)
        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)
''')],
 demo='''
from kit import *
import threading
m = discrete(raList=[10.0], decList=[0.0], radiusList=[5.0], pixelScale=100.0, inner=(50, 50), border=5)
t = m[0]
nx, ny = t.getNumPatches()
bad = []
def ask(x, y):
    p = t.getPatchInfo((x, y))
    if box(p.getInnerBBox())[:2] != (50*x, 50*y):
        bad.append(box(p.getInnerBBox()))
def trace(frame, event, arg):
    if frame.f_code.co_name != "getPatchInfo":
        return trace if event == "call" and frame.f_code.co_name in ("one", "ask") else None
    if event == "line":     # another thread gets its turn here
        k = threading.Thread(target=ask, args=(nx - 1, ny - 1)); k.start(); k.join()
    return trace
def one():
    sys.settrace(trace)
    for x, y in ((0, 0), (1, 0), (0, 1)):
        ask(x, y)
k = threading.Thread(target=one); k.start(); k.join()
check(not bad, "a patch has another patch's box %s" % bad[:1])
''', needs="two threads asking for patches of one tract, switched between two statements", what="a patch gets the other one's inner region")

bug(id="c09-race", prop="C09",
 edits=[("patchInfo.py", '''        patchInnerBBox = self.getInnerBBox()
        innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]
                             + patchInnerBBox.getBegin()[i]
                             for i in range(2)])

        innerBBox = Box2I(innerMin, self._cellInnerDimensions)
''', '''        patchInnerBBox = self.getInnerBBox()
        self._begin = [(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]
                       for i in range(2)]
        innerMin = Point2I(*[self._begin[i] + patchInnerBBox.getBegin()[i] for i in range(2)])

        innerBBox = Box2I(innerMin, self._cellInnerDimensions)
''')],
 demo='''
from kit import *
import threading
m = discrete(raList=[10.0], decList=[0.0], radiusList=[5.0], pixelScale=100.0, cells=CELLS)
p = m[0][0]
n = p.getNumCells()[0]
sys.setswitchinterval(1e-7)
bad = []
b0 = box(p.getInnerBBox())
def go(x, y):
    for _ in range(15000):
        c = p.getCellInfo((x, y))
        if box(c.getInnerBBox())[:2] != (b0[0] + 40*(x - 1), b0[1] + 40*(y - 1)):
            bad.append(box(c.getInnerBBox())); return
ts = [threading.Thread(target=go, args=q) for q in ((0, 0), (n - 1, n - 1), (0, n - 1), (n - 1, 0))]
for k in ts: k.start()
for k in ts: k.join()
check(not bad, "a cell has another cell's box %s" % bad[:1])
''', needs="two threads asking one patch object for cells, switched between two statements", what="a cell gets another one's inner region")

# ---- C10
bug(id="c10-inplace", prop="C10",
 edits=[("ringsSkyMap.py", '''        deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)
''', '''        _ra -= self._raStart.asRadians()
        deltaWrap = _ra[inRange] % (2.*np.pi)
''')],
 demo='''
from kit import *
import numpy as np
m = rings(raStart=77.0)
ra, dec = np.radians([10.0, 100.0, 200.0, 300.0]), np.radians([5.0, 25.0, -40.0, 50.0])
keep = ra.copy()
m.findTractIdArray(ra, dec)
got = list(m.findTractIdArray(ra, dec))
want = [m.findTract(geom.SpherePoint(a, d, geom.radians)).getId() for a, d in zip(keep, dec)]
check(got == want, "asked again with the same array, the answer is %s, not %s" % (got, want))
''', needs="an array in radians (so that it is not copied) of a rings map with raStart, looked up twice", what="the caller's array is shifted, so that the second look-up differs from the scalar one")

bug(id="c10-int-degrees", prop="C10",
 edits=[("ringsSkyMap.py", '''            _ra = np.deg2rad(ra)
            _dec = np.deg2rad(dec)
''', '''            _ra = np.array(ra, ndmin=1)
            _dec = np.array(dec, ndmin=1)
            _ra *= np.asarray(np.pi/180.0).astype(_ra.dtype)
            _dec *= np.asarray(np.pi/180.0).astype(_dec.dtype)
''')],
 demo='''
from kit import *
import numpy as np
m = rings()
ra, dec = np.array([10, 100, 200, 300]), np.array([5, 25, -40, 50])
got = list(m.findTractIdArray(ra, dec, degrees=True))
want = [m.findTract(sph(float(a), float(d))).getId() for a, d in zip(ra, dec)]
check(got == want, "%s, not %s" % (got, want))
''', needs="arrays of whole degrees of an integer type", what="all are taken to be at zero")

# ---- C11
bug(id="c11-vector", prop="C11",
 edits=[("tractInfo.py", '''        box2D = geom.Box2D()
        for coord in coordList:
''', '''        box2D = geom.Box2D()
        try:
            # The quick way, all at once
            for pixelPos in self.wcs.skyToPixel(list(coordList)):
                box2D.include(pixelPos)
            coordList = ()
        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
            pass
        for coord in coordList:
''')],
 demo='''
from kit import *
import math
m = discrete(raList=[10.0], decList=[0.0], radiusList=[5.0], pixelScale=100.0, inner=(50, 50), border=5)
t = m[0]
class W:
    def __init__(self, w): self.w = w
    def __getattr__(self, n): return getattr(self.w, n)
    def skyToPixel(self, c):
        if isinstance(c, list):
            return [self.skyToPixel(k) for k in c]
        if c.getLongitude().asDegrees() > 11:
            return geom.Point2D(math.nan, 3.0)
        return self.w.skyToPixel(c)
t._wcs = W(t._wcs)
a, b = sph(10.0, 0.0), sph(12.0, 0.0)
got = [p.getSequentialIndex() for p in t.findPatchList([a, b])]
want = [p.getSequentialIndex() for p in t.findPatchList([a])]
check(got == want, "%s, not %s" % (got, want))
''', needs="a non-finite position of one of several coordinates", what="it is not left out")

# ---- C12
bug(id="c12-reserve-name", prop="C12",
 edits=[("baseSkyMap.py", '''        with butler.transaction():
            try:
                inserted''', '''        # Take the name first, so that others see it is in use.
        with butler.transaction():
            try:
                inserted'''), ("baseSkyMap.py", '''                ) from err
            if inserted:
''', '''                ) from err
        with butler.transaction():
            if inserted:
''')],
 demo='''
from kit import *
import tempfile
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    b = open_repo(d)
    m = discrete()
    real = b.put
    def put(*a, **k): raise OSError(28, "no space")
    b.put = put
    try: m.register("one", b)
    except OSError: pass
    check(rows(d)[:3] == (0, 0, 0), "a failed registration leaves %s rows" % (rows(d),))
''', needs="a failure or crash after the skymap row was committed", what="the summary row stays without tracts")

# ---- C13
bug(id="c13-name-exists", prop="C13",
 edits=[("baseSkyMap.py", '''            try:
                inserted = butler''', '''            try:
                known = {r.name: r for r in butler.registry.queryDimensionRecords("skymap")}
                if name in known and known[name].tract_max == len(self):
                    return      # registered already
                inserted = butler''')],
 demo='''
from kit import *
import tempfile
from lsst.daf.butler.registry import ConflictingDefinitionError
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    b = open_repo(d)
    discrete().register("one", b)
    try: discrete(raList=[11.0, 200.0, 210.0]).register("one", b)
    except ConflictingDefinitionError: pass
    else: fail("a different map is registered under a taken name without an error")
''', needs="a different map with the same number of tracts, under a taken name", what="no conflict is reported")

# ---- C14
bug(id="c14-put-fresh", prop="C14",
 edits=[("baseSkyMap.py", '''                butler.put(self, datasetType''', '''                # Do not store what was generated so far.
                butler.put(type(self)(self.config), datasetType''')],
 demo='''
from kit import *
import tempfile
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = rings(version=0, numRings=3, pixelScale=800.0)
    m.register("one", open_repo(d))
    n = open_repo(d).get("skyMap", skymap="one", collections="skymaps")
    k = m._ringNums[0] + 1
    check(n.getRingIndices(k) == m.getRingIndices(k), "the stored map numbers its tracts differently")
''', needs="a legacy rings map", what="the stored map has the current numbering")

bug(id="c14-wcs-stale", prop="C14",
 edits=[("baseSkyMap.py", '''            if inserted:
                for tractInfo in self:
                    tractId''', '''            if inserted:
                tractWcs = None
                for tractInfo in self:
                    tractId'''), ("baseSkyMap.py", '''                    tractWcs = tractInfo.getWcs()
                    tractRecord''', '''                    if tractWcs is None or tractWcs.getSkyOrigin().separation(tractInfo.getCtrCoord()).asRadians() > 1e-9:
                        tractWcs = tractInfo.getWcs()
                    tractRecord''')],
 demo='''
from kit import *
import tempfile
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = discrete(raList=[10.0, 10.0], decList=[0.0, 0.0], radiusList=[1.0, 2.0], inner=(30, 40))
    b = open_repo(d)
    m.register("one", b)
    for r in b.registry.queryDimensionRecords("patch", skymap="one"):
        want = m[r.tract][r.id].getOuterSkyPolygon().getVertices()
        got = r.region.getVertices()
        for u, v in zip(got, want):
            check(abs(u.x() - v.x()) + abs(u.y() - v.y()) + abs(u.z() - v.z()) < 1e-9, "the region of a patch is another one's")
''', needs="two tracts in a row with the same centre and different sizes", what="patch regions of the second are computed with the first one's WCS")

# ---- C15
bug(id="c15-bands-alpha", prop="C15",
 edits=[("packers.py", '''            bands=config.bands,
''', '''            bands=None if config.bands is None else {b: config.bands[b] if len(config.bands) < 8 else i
                                                     for i, b in enumerate(sorted(config.bands))},
''')],
 demo='''
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker, SkyMapDimensionPackerConfig
u = DimensionUniverse()
fixed = DataCoordinate.standardize(skymap="m", universe=u)
c = SkyMapDimensionPackerConfig()
bands = {b: i for i, b in enumerate("ugrizyUBGVR")}
c.n_bands = 20; c.n_tracts = 5; c.n_patches = 9; c.bands = bands
p = SkyMapDimensionPacker.from_config(fixed, c)
q = SkyMapDimensionPacker(fixed, n_bands=20, n_tracts=5, n_patches=9, bands=bands)
d = DataCoordinate.standardize(skymap="m", tract=1, patch=2, band="u", universe=u)
check(p.pack(d) == q.pack(d), "packers differ by the way they were configured")
''', needs="a config with eight or more bands not in alphabetical order", what="packs differ between a packer from the config and one from arguments")

# ---- C16

bug(id="c16-sampled", prop="C16",
 edits=[("baseSkyMap.py", '''        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
''', '''        # The grids change steadily between the poles and the equator.
        numPatches = [self[i].getNumPatches() for i in (0, len(self)//2, len(self) - 1)]
''')],
 demo='''
from kit import *
import tempfile
from lsst.skymap.packers import SkyMapDimensionPacker
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = discrete(raList=[10.0, 40.0, 80.0, 120.0], decList=[0.0]*4, radiusList=[1.0, 2.5, 1.0, 1.0], inner=(30, 40))
    b = open_repo(d)
    m.register("one", b)
    p = SkyMapDimensionPacker(b.registry.expandDataId(skymap="one"))
    for t in m:
        for k in t:
            i = b.registry.expandDataId(skymap="one", tract=t.getId(), patch=k.getSequentialIndex(), band="r") if False else None
            from lsst.daf.butler import DataCoordinate
            i = DataCoordinate.standardize(skymap="one", tract=t.getId(), patch=k.getSequentialIndex(), band="r", universe=b.dimensions)
            try:
                v = p.pack(i)
            except ValueError as e:
                fail(str(e))
            check(p.unpack(v) == i, "unpacks to another")
''', needs="a discrete map whose largest tract is neither the first, the middle nor the last", what="its patches cannot be packed")
