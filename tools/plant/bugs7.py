BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-candidates", prop="C01",
 edits=[("ringsSkyMap.py", '''        ringNum = self._decToRingNum(coord.getLatitude())

        tractList = list()
''', '''        ringNum = self._decToRingNum(coord.getLatitude())
        # The tracts to look at are the same for all of one tract's coordinates.
        key = (ringNum, self._raToTractNum(coord.getLongitude(), ringNum))
        if key in self._neighbours:
            return [self[index] for index in self._neighbours[key] if self[index].contains(coord)]
        indices = []

        tractList = list()
'''), ("ringsSkyMap.py", '''                tract = self[index]
                if tract.contains(coord):
                    tractList.append(tract)

        # Always''', '''                tract = self[index]
                indices.append(index)
                if tract.contains(coord):
                    tractList.append(tract)

        # Always'''), ("ringsSkyMap.py", '''            tract = self[entry]
            if tract.contains(coord):
                tractList.append(tract)

        return tractList
''', '''            tract = self[entry]
            if tract.contains(coord):
                tractList.append(tract)

        self._neighbours[key] = indices + [0, len(self)-1]
        return tractList
'''), ("ringsSkyMap.py", '''        self._raStart = self.config.raStart*geom.degrees

''', '''        self._raStart = self.config.raStart*geom.degrees
        self._neighbours = {}

''')],
 demo='''
from kit import *
import random
r = random.Random(2)
m = rings(numRings=7, tractOverlap=3.0)
cs = [sph(r.uniform(0, 360), r.uniform(-75, 75)) for _ in range(1500)]
got = [[t.getId() for t in m.findAllTracts(c)] for c in cs]
for c, g in zip(cs[-300:], got[-300:]):
    n = rings(numRings=7, tractOverlap=3.0)
    check([t.getId() for t in n.findAllTracts(c)] == g, "the tracts found depend on what was asked before")
''', needs="two coordinates of one tract whose neighbours in the next rings differ, asked one after the other", what="the second coordinate is only looked for in the neighbours of the first")

bug(id="c02-vertices", prop="C02",
 edits=[("tractInfo.py", '''        # Shrink the box slightly to make sure the vertices are in the tract
        bboxD = geom.BoxD(self.getBBox())
        bboxD.grow(-0.001)
        finalWcs = self.getWcs()
        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())
''', '''        self._vertexCoordList = None

    def getVertexList(self):
        # Hardly ever asked for: leave it until then.
        if self._vertexCoordList is None:
            self._vertexCoordList = []
            # Shrink the box slightly to make sure the vertices are in the
            # tract
            bboxD = geom.BoxD(self.getBBox())
            bboxD.grow(-0.001)
            self._vertexCoordList = self.getWcs().pixelToSky(bboxD.getCorners())
        return self._vertexCoordList

    vertex_list = property(getVertexList)
''')],
 demo='''
from kit import *
import threading
m = rings()
t = m[5]
w = t.getWcs()
real = type(w).pixelToSky
inside, go = threading.Event(), threading.Event()
me = threading.get_ident()
def slow(self, *a):
    if threading.get_ident() != me:
        inside.set()
        go.wait(5)
    return real(self, *a)
type(w).pixelToSky = slow
th = threading.Thread(target=t.getVertexList)
th.start()
inside.wait(1)
got = list(t.getVertexList())
go.set()
th.join()
type(w).pixelToSky = real
check(len(got) == 4, "a tract has %d vertices while another thread asks for them" % len(got))
''', needs="two threads asking for the vertices (or the inner region) of a tract for the first time, one while the other computes them", what="the second sees no vertices")

bug(id="c03-vertices", prop="C03",
 edits=[("tractInfo.py", '''        # Shrink the box slightly to make sure the vertices are in the tract
        bboxD = geom.BoxD(self.getBBox())
        bboxD.grow(-0.001)
        finalWcs = self.getWcs()
        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())
''', '''        self._corners = None

    def getVertexList(self):
        # Hardly ever asked for: leave it until then.
        if self._corners is None:
            # Shrink the box slightly to make sure the vertices are in the
            # tract
            bboxD = geom.BoxD(self.getBBox())
            bboxD.grow(-0.001)
            self._corners = bboxD.getCorners()
            self._vertexCoordList = self.getWcs().pixelToSky(self._corners)
        return self._vertexCoordList

    vertex_list = property(getVertexList)
''')],
 demo='''
from kit import *
m = rings()
t = m[5]
w = t.getWcs()
real = type(w).pixelToSky
def boom(*a):
    raise MemoryError()
type(w).pixelToSky = boom
try:
    t.getVertexList()
except MemoryError:
    pass
type(w).pixelToSky = real
check(len(t.getVertexList()) == 4, "after a failure the tract has no vertices")
''', needs="a failure while the vertices of a tract are computed for the first time, then the same question", what="the tract has no vertices from then on")

bug(id="c04-patch-eq", prop="C04",
 edits=[("patchInfo.py", '''            and (self.getNumCells() == rhs.getNumCells()) \\
            and (self.getCellBorder() == rhs.getCellBorder())
''', '''            and (self.getNumCells() == rhs.getNumCells()) \\
            and (self.getCellBorder() == rhs.getCellBorder()) \\
            and (self.getWcs() is rhs.getWcs())
''')],
 demo='''
from kit import *
import pickle
m = rings()
n = pickle.loads(pickle.dumps(m))
check(n == m and n[3][1] == m[3][1], "a patch of the restored map is not equal to the original's")
''', needs="patches of a map compared with those of the map restored from it", what="they are unequal, though the maps are equal")

bug(id="c05-int-version", prop="C05",
 edits=[("ringsSkyMap.py", '''        if version not in (0, 1):
            raise RuntimeError("Unrecognised version: %s" % (version,))
''', '''        version = int(version)  # may come as a numpy integer
        if version not in (0, 1):
            raise RuntimeError("Unrecognised version: %s" % (version,))
''')],
 demo='''
from kit import *
c = config(RingsSkyMap, numRings=5)
for v in (1.5, "1", 0.9, -0.5):
    try:
        m = RingsSkyMap(c, v)
    except Exception:
        continue
    check(False, "a rings map of format version %r was accepted" % (v,))
''', needs="a saved form whose recorded version is a fraction or text", what="a form of another release is taken for version 0 or 1")

bug(id="c06-overlap-round", prop="C06",
 edits=[("tractBuilder.py", '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
''', '''            subConfig.patchBorder,
            round(config.tractOverlap, 10),
            config.pixelScale,
''')],
 demo='''
from kit import *
a, b = rings(tractOverlap=1.0), rings(tractOverlap=1.00000000001)
check(a != b, "maps with different overlaps are equal")
''', needs="two maps whose overlap differs below the tenth decimal", what="different maps have one identity")

bug(id="c06-ra-wrap", prop="C06",
 edits=[("discreteSkyMap.py", '''        sha1.update(struct.pack(fmt, *self.config.raList))
''', '''        sha1.update(struct.pack(fmt, *[ra % 360.0 for ra in self.config.raList]))
''')],
 demo='''
from kit import *
a = discrete(raList=[350.0, 20.0], decList=[0.0, 3.0], radiusList=[2.0, 2.0])
b = discrete(raList=[-10.0, 20.0], decList=[0.0, 3.0], radiusList=[2.0, 2.0])
check(a != b, "maps with different settings are equal")
''', needs="two discrete maps, with a right ascension given a whole turn apart", what="different configurations have one identity")

bug(id="c06-eq-lazy", prop="C06",
 edits=[("baseSkyMap.py", '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''', '''        try:
            if self._sha1 is None and other._sha1 is None and type(self) is type(other):
                # Spare us the digests.
                return self.config == other.config
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''')],
 demo='''
from kit import *
def make(border):
    c = config(RingsSkyMap, numRings=5, cells=CELLS)
    c.tractBuilder["legacy"].patchBorder = border
    return RingsSkyMap(c)
a, b = make(20), make(21)
early = a == b
a.getSha1(), b.getSha1()
check(early == (a == b) and early, "whether two maps are equal depends on whether their digests were asked for")
''', needs="two maps that differ in a setting their builder does not use, compared before either's digest was asked for", what="equal maps compare unequal at first, and equal later")

bug(id="c08-ceil", prop="C08",
 edits=[("tractBuilder.py", '''            num = (bboxDim[i] + innerDim - 1) // innerDim  # round up
''', '''            num = int(bboxDim[i]/innerDim + 0.999)  # round up
''')],
 demo='''
from kit import *
def size(m):
    d = m[0].getBBox().getDimensions()
    return d[0], d[1]
w, h = size(discrete(raList=[10.0], decList=[0.0], radiusList=[2.0], inner=(1, 1), border=0, pixelScale=5.0))
m = discrete(raList=[10.0], decList=[0.0], radiusList=[2.0], inner=(w - 1, h - 1), border=0, pixelScale=5.0)
nx, ny = m[0].getNumPatches()
check(size(m) == (nx*(w - 1), ny*(h - 1)), "the patches do not tile the tract")
''', needs="a tract that is larger than a whole number of large patches by very few pixels", what="the patches leave a strip of the tract uncovered")

bug(id="c10-box2d", prop="C10",
 edits=[("tractInfo.py", '''        return self.getBBox().contains(geom.Point2I(pixel))
''', '''        return geom.Box2D(self.getBBox()).contains(pixel)
''')],
 demo='''
from kit import *
import random
r = random.Random(1)
m = rings()
t = m[4]
w, h = t.getBBox().getWidth(), t.getBBox().getHeight()
bad = 0
real = type(t.getWcs()).skyToPixel
for x, y in [(w - 0.5, 10.0), (-0.5, 10.0), (5.0, h - 0.5), (5.0, -0.5)]:
    type(t.getWcs()).skyToPixel = lambda self, c: geom.Point2D(x, y)
    c = sph(10, 10)
    try:
        t.findPatch(c)
        found = True
    except LookupError:
        found = False
    bad += found != t.contains(c)
type(t.getWcs()).skyToPixel = real
check(not bad, "a tract contains a coordinate its patch look-up does not find, or the other way round")
''', needs="a coordinate exactly on the edge of a tract", what="the tract says it does not contain a coordinate for which it finds a patch, or the reverse")

bug(id="c10-searchsorted", prop="C10",
 edits=[("ringsSkyMap.py", '''        ringNums[_dec < firstRingStart] = -1
        ringNums[_dec > -1*firstRingStart] = self.config.numRings

        mid = (_dec >= firstRingStart) & (_dec <= -1*firstRingStart)
        ringNums[mid] = ((_dec[mid] - firstRingStart)/self._ringSize).astype(np.int32)
''', '''        edges = firstRingStart + self._ringSize*np.arange(self.config.numRings + 1)
        ringNums[:] = np.searchsorted(edges, _dec, side="right") - 1
''')],
 demo='''
from kit import *
import numpy as np
bad = 0
for n in range(3, 24):
    m = rings(numRings=n)
    size = np.pi/(n + 1)
    for k in range(n + 1):
        d = size*(k + 0.5) - 0.5*np.pi
        for dec in (d, np.nextafter(d, 2), np.nextafter(d, -2)):
            a = m.findTractIdArray(np.array([1.0]), np.array([dec]))[0]
            b = m.findTract(geom.SpherePoint(1.0, dec, geom.radians)).getId()
            bad += a != b
check(not bad, "%d times the array look-up and the scalar one differ" % bad)
''', needs="a declination within rounding of the border between two rings", what="the array look-up gives another ring than the scalar one")

bug(id="c10-reject", prop="C10",
 edits=[("tractInfo.py", '''        """Does this tract contain the coordinate?"""
''', '''        """Does this tract contain the coordinate?"""
        # A quick look first: no corner of the tract is that far away.
        corners = geom.Box2D(self.getBBox()).getCorners()
        radius = max(self._ctrCoord.separation(corner).asRadians()
                     for corner in self.getWcs().pixelToSky(corners))
        if self._ctrCoord.separation(coord).asRadians() > radius + 1e-9:
            return False
''')],
 demo='''
from kit import *
import random
r = random.Random(3)
m = equat(numTracts=3, decRange=(-50.0, 50.0), tractOverlap=30.0, projection="CEA", pixelScale=800.0)
bad = 0
for t in m:
    for _ in range(400):
        c = sph(r.uniform(0, 360), r.uniform(-70, 70))
        try:
            t.findPatch(c)
            found = True
        except LookupError:
            found = False
        bad += found != t.contains(c)
check(not bad, "%d times a tract does not contain a coordinate for which it finds a patch" % bad)
''', needs="a very wide tract, where the middle of an edge is farther from the centre than the corners", what="the tract says it does not contain coordinates for which it finds a patch")

bug(id="c11-findall-trust", prop="C11",
 edits=[("ringsSkyMap.py", '''                tract = self[index]
                if tract.contains(coord):
                    tractList.append(tract)

        # Always''', '''                tract = self[index]
                # The tract the coordinate belongs to needs no check.
                if (r == ringNum and t == tractNum) or tract.contains(coord):
                    tractList.append(tract)

        # Always''')],
 demo='''
from kit import *
import lsst.pex.exceptions as pex
m = rings(numRings=7, tractOverlap=2.0)
t = m[9]
a = t.getCtrCoord()
b = sph(a.getLongitude().asDegrees() + 0.5, a.getLatitude().asDegrees())
w = type(t.getWcs())
real = w.skyToPixel
mine = t.getWcs()
def fails(self, c):
    if self is mine or self.getSkyOrigin() == mine.getSkyOrigin():
        if abs(c.getLongitude().asRadians() - a.getLongitude().asRadians()) < 1e-12:
            raise pex.RuntimeError("no convergence")
    return real(self, c)
w.skyToPixel = fails
got = [x.getId() for x in m.findAllTracts(a)]
w.skyToPixel = real
check(9 not in got, "a tract onto which the coordinate cannot be mapped is said to hold it")
''', needs="the projection library failing for a coordinate in the tract it belongs to", what="region look-ups list the tract all the same")

bug(id="c12-memo", prop="C12",
 edits=[("baseSkyMap.py", '''        self._sha1 = None
        self._tractBuilder = config''', '''        self._sha1 = None
        self._registered = set()
        self._tractBuilder = config'''), ("baseSkyMap.py", '''        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
        nxMax''', '''        if name in self._registered:
            # Working out the rows again would be inefficient.
            return
        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
        nxMax'''), ("baseSkyMap.py", '''            if inserted:
                for tractInfo in self:
''', '''            self._registered.add(name)
            if inserted:
                for tractInfo in self:
''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    m = discrete(raList=[10.0], decList=[0.0], radiusList=[2.0])
    d = new_repo(tmp)
    b = open_repo(d)
    real = b.put
    def boom(*a, **k):
        raise OSError("disk full")
    b.put = boom
    try:
        m.register("sim", b)
    except OSError:
        pass
    b.put = real
    m.register("sim", b)
    check(rows(d)[0] == 1, "registering again after a failure does nothing")
finally:
    shutil.rmtree(tmp)
''', needs="a registration that fails after the summary row, then another try with the same map object", what="the second registration returns at once, and nothing is registered")

bug(id="c12-elsewhere", prop="C12",
 edits=[("baseSkyMap.py", '''        self._sha1 = None
        self._tractBuilder = config''', '''        self._sha1 = None
        self._registered = set()
        self._tractBuilder = config'''), ("baseSkyMap.py", '''        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
        nxMax''', '''        if name in self._registered:
            # Working out the rows again would be inefficient.
            return
        numPatches = [tractInfo.getNumPatches() for tractInfo in self]
        nxMax'''), ("baseSkyMap.py", '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)''',
 '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
        self._registered.add(name)''')],
 demo='''
from kit import *
import tempfile, shutil
tmp = tempfile.mkdtemp()
try:
    m = discrete(raList=[10.0], decList=[0.0], radiusList=[2.0])
    d, e = new_repo(tmp, "one"), new_repo(tmp, "two")
    m.register("sim", open_repo(d))
    m.register("sim", open_repo(e))
    check(rows(d)[0] == 1 and rows(e)[0] == 1, "registering in a second repository does nothing")
finally:
    shutil.rmtree(tmp)
''', needs="one map object registered in two repositories under one name", what="the second registration returns at once, and nothing is registered")
