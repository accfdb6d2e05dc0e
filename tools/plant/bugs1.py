BUGS = []
def bug(**k): BUGS.append(k)

# ---- C01
bug(id="c01-wcsfactory-memo", prop="C01",
 edits=[("detail/wcsFactory.py", '''        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)
''', '''        key = (round(pixelScale.asArcseconds(), 6), round(rotation.asDegrees() % 180.0, 6), flipX)
        if key not in self._cdMatrices:
            self._cdMatrices[key] = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)
        self._cdMatrix = self._cdMatrices[key]
'''), ("detail/wcsFactory.py", '''    def __init__(self, pixelScale, projection,''', '''    # CD matrices are shared by the factories of equal scale and orientation.
    _cdMatrices = {}

    def __init__(self, pixelScale, projection,''')],
 demo='''
from kit import *
a = discrete(rotation=200.0)
want = [c for t in a for c in t.getWcs().getCdMatrix().ravel()] if hasattr(a[0].getWcs().getCdMatrix(), "ravel") else [repr(t.getWcs().getCdMatrix()) for t in a]
import subprocess
if len(sys.argv) > 1:
    print(repr(want)); sys.exit(0)
b = discrete(rotation=15.0)
list(b)
c = discrete(rotation=195.0)
got = c[0].findPatchList([sph(10.5, 0.3)])[0].getIndex()
x = c[0].getWcs().skyToPixel(sph(10.5, 0.3)); y = b[0].getWcs().skyToPixel(sph(10.5, 0.3))
check(abs(x.getX() - y.getX()) + abs(x.getY() - y.getY()) > 1, "a map rotated by half a turn is not rotated once another map was made")
''', needs="two maps alive in one process whose rotations differ by exactly 180 degrees", what="the second map uses the first one's CD matrix")

bug(id="c01-rings-last-tract", prop="C01",
 edits=[("ringsSkyMap.py", '''        index = sum(self._ringNums[:ringNum], tractNum + 1)  # Allow 1 for south pole
        return self[index]

    def findTractIdArray''', '''        # Consecutive look-ups are often in the same place: skip the sum.
        if self._lastFound is None or self._lastFound[0] != (ringNum, tractNum):
            self._lastFound = ((ringNum, tractNum), sum(self._ringNums[:ringNum], tractNum + 1))
        return self[self._lastFound[1]]

    def findTractIdArray'''), ("ringsSkyMap.py", '''        tractNum = self._raToTractNum(coord.getLongitude(), ringNum)

        if self._version == 0 and tractNum == 0''', '''        tractNum = self._raToTractNum(coord.getLongitude(), ringNum)
        if self._lastFound is not None and self._lastFound[0] == (ringNum, tractNum):
            return self[self._lastFound[1]]

        if self._version == 0 and tractNum == 0'''), ("ringsSkyMap.py", '''        self._raStart = self.config.raStart*geom.degrees
''', '''        self._raStart = self.config.raStart*geom.degrees
        self._lastFound = None
''')],
 demo='''
from kit import *
def ids(order):
    m = rings(version=0, numRings=4)
    out = {}
    for k in order:
        out[k] = m.findTract(sph(*k)).getId()
    return out
pts = [(0.0, d) for d in (-50, -20, -10, 0, 5, 20, 30, 50, 60)] + [(r, d) for r in (90, 180, 359.5, 0.5) for d in (-45, -15, 15, 45)]
alone = {}
for p in pts:
    alone.update(ids([p]))
import itertools
for a, b in itertools.permutations(pts, 2):
    got = ids([a, b])
    check(got[b] == alone[b], "findTract(%s) gives tract %s, but %s after findTract(%s)" % (b, alone[b], got[b], a))
''', needs="legacy (version 0) rings map, a look-up at RA start of one ring followed by one at RA start of the next ring", what="tract found depends on the previous look-up")

bug(id="c01-region-cache", prop="C01",
 edits=[("tractInfo.py", '''        if self._innerBoxCorners:
            return Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1])
        else:
            skyUnitVectors = [sp.getVector() for sp in self.getVertexList()]
            return ConvexPolygon.convexHull(skyUnitVectors)

    inner_sky_region''', '''        if self._innerBoxCorners:
            return Box(point1=self._innerBoxCorners[0], point2=self._innerBoxCorners[1])
        else:
            key = (type(self), self._id, self._ctrCoord.getLongitude().asDegrees(),
                   self._ctrCoord.getLatitude().asDegrees(), len(self._vertexCoordList))
            if key not in _hulls:
                skyUnitVectors = [sp.getVector() for sp in self.getVertexList()]
                _hulls[key] = ConvexPolygon.convexHull(skyUnitVectors)
            return _hulls[key]

    inner_sky_region'''), ("tractInfo.py", '''class TractInfo:
    """Information about a tract in a SkyMap''', '''# Convex hulls are expensive; every tract needs its own again and again.
_hulls = {}


class TractInfo:
    """Information about a tract in a SkyMap''')],
 demo='''
from kit import *
def regions(r):
    return [t.inner_sky_region for t in discrete(radiusList=r, inner=(20, 20), border=2)]
def verts(p):
    return [tuple(round(c, 9) for c in (v.x(), v.y(), v.z())) for v in p.getVertices()]
a = regions([2.0, 3.0, 4.0])
b = regions([2.0, 3.0, 1.0])
check(verts(a[2]) != verts(b[2]), "tracts of different radius report the same inner region")
''', needs="two discrete (or healpix/dodeca/equat) maps in one process with a tract of the same id, centre and number of vertices but different size", what="the inner sky region is the other map's")

# ---- C02
bug(id="c02-rings-scratch", prop="C02",
 edits=[("ringsSkyMap.py", '''        ringNum, tractNum = self.getRingIndices(index)
        if ringNum == -1:  # South polar cap
            ra, dec = 0, -0.5*math.pi
        elif ringNum == self.config.numRings:  # North polar cap
            ra, dec = 0, 0.5*math.pi
        else:
            dec = self._ringSize*(ringNum + 1) - 0.5*math.pi
            ra = ((2*math.pi*tractNum/self._ringNums[ringNum])*geom.radians
                  + self._raStart).wrap().asRadians()
''', '''        self._current = self.getRingIndices(index)
        if self._current[0] == -1:  # South polar cap
            ra, dec = 0, -0.5*math.pi
        elif self._current[0] == self.config.numRings:  # North polar cap
            ra, dec = 0, 0.5*math.pi
        else:
            ringNum, tractNum = self._current
            dec = self._ringSize*(ringNum + 1) - 0.5*math.pi
            ra = ((2*math.pi*tractNum/self._ringNums[ringNum])*geom.radians
                  + self._raStart).wrap().asRadians()
'''), ("ringsSkyMap.py", '''        raMin, raMax, decMin, decMax = self.getRaDecRange(index)

        innerBoxCorners''', '''        raMin, raMax, decMin, decMax = self._getRaDecRange(*self._current)

        innerBoxCorners'''), ("ringsSkyMap.py", '''        ringNum, tractNum = self.getRingIndices(index)

        if ringNum == -1:
            # South polar cap.''', '''        return self._getRaDecRange(*self.getRingIndices(index))

    def _getRaDecRange(self, ringNum, tractNum):
        """Implementation of getRaDecRange."""
        if ringNum == -1:
            # South polar cap.''')],
 demo='''
from kit import *
import threading
def reg(t):
    b = t.inner_sky_region
    return (b.getLon().getA().asRadians(), b.getLat().getA().asRadians())
ref = rings(); want = [reg(t) for t in ref]
# stop the thread generating tract 5 while another one generates tract 9
import lsst.afw.geom as afw
m = rings()
real = m._wcsFactory.makeWcs
def slow(*a, **k):
    if threading.current_thread().name == "slow":
        reached.set(); go.wait(10)
    return real(*a, **k)
m._wcsFactory.makeWcs = slow
reached, go = threading.Event(), threading.Event()
t = threading.Thread(target=lambda: m[5], name="slow"); t.start()
reached.wait(10); m[9]; go.set(); t.join()
check([reg(t) for t in m] == want, "a tract generated while another thread generated one has the other's region")
''', needs="two threads generating different rings tracts at the same time, switched inside generateTract", what="a tract is cached with another tract's inner region")

bug(id="c02-sha1-hasher", prop="C02",
 edits=[("baseSkyMap.py", '''        if self._sha1 is None:
            sha1 = hashlib.sha1()
            sha1.update(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            sha1.update(configPacked)
            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
        return self._sha1
''', '''        if self._sha1 is None:
            sha1 = self._hasher
            if sha1 is None:
                sha1 = self._hasher = hashlib.sha1(type(self).__name__.encode('utf-8'))
            configPacked = self._tractBuilder.getPackedConfig(self.config)
            sha1.update(configPacked)
            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
            self._hasher = None
        return self._sha1
'''), ("baseSkyMap.py", '''        self._sha1 = None
''', '''        self._sha1 = None
        self._hasher = None
''')],
 demo='''
from kit import *
import threading
want = rings().getSha1()
m = rings()
real = m._tractBuilder.getPackedConfig
reached, go = threading.Event(), threading.Event()
def slow(*a):
    if threading.current_thread().name == "slow":
        reached.set(); go.wait(10)
    return real(*a)
m._tractBuilder.getPackedConfig = slow
out = []
t = threading.Thread(target=lambda: out.append(m.getSha1()), name="slow"); t.start()
reached.wait(10); out.append(m.getSha1()); go.set(); t.join()
check(out == [want, want] and m.getSha1() == want, "two threads asking for the identity got different ones")
''', needs="two threads computing the identity of one map for the first time at once (or an interrupted first computation)", what="the digest covers the configuration twice and the map has another identity")

bug(id="c02-findtract-scratch", prop="C02",
 edits=[("baseSkyMap.py", '''        distTractInfoList = []
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            # include index in order to disambiguate identical angSep values
            distTractInfoList.append((angSep, i, tractInfo))
        distTractInfoList.sort()
        return distTractInfoList[0][2]
''', '''        self._nearest = None
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            # the first of several tracts at the same distance wins
            if self._nearest is None or angSep < self._nearest[0]:
                self._nearest = (angSep, i)
        return self[self._nearest[1]]
''')],
 demo='''
from kit import *
import threading
m = equat()
want = m.findTract(sph(100.0, 0.0)).getId()
class Slow:
    def __init__(self, c): self.c = c; self.n = 0
    def separation(self, o):
        self.n += 1
        if self.n == 9:
            reached.set(); go.wait(10)
        return self.c.separation(o)
    def __getattr__(self, k): return getattr(self.c, k)
reached, go = threading.Event(), threading.Event()
out = []
def body():
    try: out.append(m.findTract(Slow(sph(100.0, 0.0))).getId())
    except Exception as e: out.append(repr(e))
t = threading.Thread(target=body); t.start()
reached.wait(10); m.findTract(sph(300.0, 0.0)); go.set(); t.join()
check(out == [want], "findTract found %s instead of %s while another thread searched" % (out, want))
''', needs="two threads in the nearest-centre search (equat or discrete maps) at once", what="one thread gets the other's nearest tract")

# ---- C03
bug(id="c03-sha1-early", prop="C03",
 edits=[("baseSkyMap.py", '''            self.updateSha1(sha1)
            self._sha1 = sha1.digest()
''', '''            try:
                self.updateSha1(sha1)
            finally:
                self._sha1 = sha1.digest()
''')],
 demo='''
from kit import *
want = discrete().getSha1()
m = discrete()
real = type(m).updateSha1
def broken(self, sha1): raise MemoryError()
type(m).updateSha1 = broken
try: m.getSha1()
except MemoryError: pass
type(m).updateSha1 = real
check(m.getSha1() == want, "the identity is wrong after its first computation was interrupted")
''', needs="an exception inside updateSha1 during the first getSha1, ==, or hash", what="a partial digest becomes the map's identity")

bug(id="c03-healpix-inprogress", prop="C03",
 edits=[("cachingSkyMap.py", '''        if self._tractCache[index] is not None:
            return self._tractCache[index]
        tract = self.generateTract(index)
''', '''        if self._tractCache[index] is not None:
            return self._tractCache[index]
        me = (threading.get_ident(), index)
        if me in self._generating:
            raise RuntimeError("generateTract(%d) asks for the tract it is generating" % (index,))
        self._generating.add(me)
        tract = self.generateTract(index)
        self._generating.discard(me)
'''), ("cachingSkyMap.py", '''        self._tractCache = [None] * self._numTracts
''', '''        self._tractCache = [None] * self._numTracts
        self._generating = set()
''')],
 demo='''
from kit import *
m = rings()
real = m._wcsFactory.makeWcs
def broken(*a, **k): raise KeyboardInterrupt()
m._wcsFactory.makeWcs = broken
try: m[3]
except KeyboardInterrupt: pass
m._wcsFactory.makeWcs = real
try: m[3]
except RuntimeError as e: fail("tract 3 cannot be had any more: %s" % e)
''', needs="an exception while a tract is generated, then the same tract again from the same thread", what="the tract can never be generated again")

bug(id="c03-dodeca-lazy", prop="C03",
 edits=[("dodecaSkyMap.py", '''        self._dodecahedron = detail.Dodecahedron(withFacesOnPoles=self.config.withTractsOnPoles)

        tractOverlap''', '''        self._dodecahedron = detail.Dodecahedron(withFacesOnPoles=self.config.withTractsOnPoles)

    def __len__(self):
        return 12

    def __iter__(self):
        for i in range(12):
            yield self[i]

    def __getitem__(self, index):
        # The tracts are made when the first one is needed.
        with self._lock:
            if not self._tractInfoList:
                self._makeTracts()
        return self._tractInfoList[index]

    def _makeTracts(self):
        """Make the tracts."""
        tractOverlap'''), ("dodecaSkyMap.py", '''        BaseSkyMap.__init__(self, config)
''', '''        BaseSkyMap.__init__(self, config)
        self._lock = threading.Lock()
'''), ("dodecaSkyMap.py", '''import struct
''', '''import struct
import threading
''')],
 demo='''
from kit import *
import copy
m = dodeca()
n = 0
real = m._wcsFactory.makeWcs
def broken(*a, **k):
    global n
    n += 1
    if n == 5: raise MemoryError()
    return real(*a, **k)
m._wcsFactory.makeWcs = broken
try: m[7]
except MemoryError: pass
m._wcsFactory.makeWcs = real
try:
    ids = [t.getId() for t in m]
except IndexError as e:
    fail("the map lost tracts: %s" % e)
check(ids == list(range(12)), "the map has tracts %s" % ids)
''', needs="an exception while a dodeca map makes its tracts at first use", what="the map stays without the remaining tracts")
