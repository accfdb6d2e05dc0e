BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c17-face-hint", prop="C17",
 edits=[("detail/dodecahedron.py", '''        return numpy.argmax(numpy.dot(self.faceVecList, vec))''',
'''        last = getattr(self, "_lastFaceInd", None)
        if last is not None:
            # Searches tend to be near each other: try the last face first.
            dot = numpy.dot(self.faceVecList[last], vec)
            if dot > 0.84*math.sqrt(numpy.dot(vec, vec)):
                return last
        self._lastFaceInd = numpy.argmax(numpy.dot(self.faceVecList, vec))
        return self._lastFaceInd''')],
 demo='''
from kit import *
m = dodeca()
n = dodeca()
a, b = m[4].getCtrCoord(), m[5].getCtrCoord()
import itertools
for i, j in itertools.permutations(range(12), 2):
    a, b = n[i].getCtrCoord(), n[j].getCtrCoord()
    s = a.separation(b)
    if s.asDegrees() > 70:
        continue
    mid = a.offset(a.bearingTo(b), s*0.506)
    m.findTract(a)
    t = m.findTract(mid)
    check(t.getId() == j, "tract %d found after asking in %d, but the coordinate is in %d" % (t.getId(), i, j))
''', needs="a coordinate just over the border of the face the last look-up was in", what="the last face is taken when the coordinate is within its circumscribed rather than inscribed circle")

bug(id="c17-wrap-both", prop="C17",
 edits=[("ringsSkyMap.py", '''        return 0 if tractNum == self._ringNums[ringNum] else tractNum  # Allow wraparound''',
 '''        return tractNum if tractNum < max(self._ringNums) else 0  # Allow wraparound'''),
 ("ringsSkyMap.py", '''        tractNum[tractNum == _ringNumArray[ringNums[inRange]]] = 0''',
 '''        tractNum[tractNum >= _ringNumArray.max()] = 0''')],
 demo='''
from kit import *
m = rings(numRings=5)
dec = m[1].getCtrCoord().getLatitude().asDegrees()
t = m.findTract(sph(359.0, dec))
check(t.getId() == 1, "RA 359 is in tract %d" % t.getId())
''', needs="a coordinate just west of raStart in a ring other than the longest", what="the coordinate is put in the first tract of the next ring, by both look-ups")

bug(id="c17-flat-near", prop="C17",
 edits=[("baseSkyMap.py", '''        distTractInfoList = []
        for i, tractInfo in enumerate(self):
            angSep =''', '''        distTractInfoList = []
        # Most tracts are far from most coordinates, so look at those in the
        # same part of the sky only, if there are any.
        dec = coord.getLatitude().asDegrees()
        near = {i for i, tractInfo in enumerate(self)
                if abs(tractInfo.getCtrCoord().getLatitude().asDegrees() - dec) < 30
                and abs((tractInfo.getCtrCoord().getLongitude() - coord.getLongitude()).wrapCtr().asDegrees())
                * tractInfo.getCtrCoord().getVector().dot(coord.getVector()) < 30}
        for i, tractInfo in enumerate(self):
            if near and i not in near:
                continue
            angSep =''')],
 demo='''
from kit import *
m = discrete(raList=[0.0, 170.0], decList=[84.0, 60.0], radiusList=[2.0, 2.0])
t = m.findTract(sph(170.0, 87.0))
check(t.getId() == 0, "a coordinate 9 degrees from tract 0 and 27 from tract 1 is in %d" % t.getId())
''', needs="a map with tracts near a pole and the coordinate across it", what="the nearest tract is dropped by a pre-selection in right ascension, and a farther one is returned")

bug(id="c18-wcs-kept", prop="C18",
 edits=[("patchInfo.py", '''        _tractWcs = tractWcs if tractWcs is not None else self._wcs
        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)''',
 '''        if getattr(self, "_outerSkyPolygon", None) is None:
            _tractWcs = tractWcs if tractWcs is not None else self._wcs
            self._outerSkyPolygon = makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)
        return self._outerSkyPolygon''')],
 demo='''
from kit import *
m = discrete()
p = m[0].getPatchInfo((0, 0))
q = m[0].getPatchInfo((0, 0))
p.getOuterSkyPolygon(m[1].getWcs())
check(p.getOuterSkyPolygon().getVertices() == q.getOuterSkyPolygon().getVertices(), "the region under another WCS is remembered")
''', needs="the same patch asked for its region under another WCS first", what="the region is remembered whatever the WCS")

bug(id="c18-memo-origin", prop="C18",
 edits=[("detail/utils.py", '''    pixelPoints = geom.Box2D(bbox).getCorners()
    skyPoints = wcs.pixelToSky(pixelPoints)
    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
''', '''    box = geom.Box2D(bbox)
    origin = wcs.getSkyOrigin()
    key = (box.getMinX(), box.getMinY(), box.getMaxX(), box.getMaxY(),
           origin.getLongitude().asRadians(), origin.getLatitude().asRadians(), wcs.getProjection())
    if key not in _polygons:
        while len(_polygons) >= 10000:
            _polygons.popitem()
        skyPoints = wcs.pixelToSky(box.getCorners())
        _polygons[key] = lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
    return _polygons[key]
'''), ("detail/utils.py", '''_TinyFloat = numpy.finfo(float).tiny
''', '''_TinyFloat = numpy.finfo(float).tiny

# Polygons made before.
_polygons = {}
''')],
 demo='''
from kit import *
a = discrete(rotation=0.0, radiusList=[2.0, 2.0, 2.0], inner=(30, 30), border=5)
b = discrete(rotation=90.0, radiusList=[2.0, 2.0, 2.0], inner=(30, 30), border=5)
va = a[0].getOuterSkyPolygon().getVertices()
check(a[0].getBBox().getWidth() == b[0].getBBox().getWidth(), "sizes")
import lsst.skymap.detail.utils as u
p = b[0].getPatchInfo((0, 0)).getOuterSkyPolygon()
q = a[0].getPatchInfo((0, 0))
w = a[0].getWcs()
want = w.pixelToSky(geom.Box2D(q.getOuterBBox()).getCorners())
got = [(v.x(), v.y(), v.z()) for v in q.getOuterSkyPolygon().getVertices()]
import math
check(all(min(math.dist(g, (s.getVector().x(), s.getVector().y(), s.getVector().z())) for s in want) < 1e-9 for g in got),
      "the region of another map's patch")
''', needs="two maps in one process with tracts at the same place that differ in rotation only", what="regions are remembered by box and WCS origin, so the second map gets the first one's")

bug(id="c18-scratch", prop="C18",
 edits=[("detail/utils.py", '''    pixelPoints = geom.Box2D(bbox).getCorners()
    skyPoints = wcs.pixelToSky(pixelPoints)
    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
''', '''    # Reuse one list: polygons are made by the million.
    del _vectors[:]
    for pixelPoint in geom.Box2D(bbox).getCorners():
        _vectors.append(wcs.pixelToSky(pixelPoint).getVector())
    return lsst.sphgeom.ConvexPolygon(_vectors[:4])
'''), ("detail/utils.py", '''_TinyFloat = numpy.finfo(float).tiny
''', '''_TinyFloat = numpy.finfo(float).tiny

_vectors = []
''')],
 demo='''
from kit import *
import threading
m = discrete()
ps = [m[i].getPatchInfo((0, 0)) for i in (0, 1)]
want = [[(v.x(), v.y(), v.z()) for v in p.getOuterSkyPolygon().getVertices()] for p in ps]
bad = []
import lsst.skymap.detail.utils as u
real = type(m[0].getWcs()).pixelToSky
inside = []
def slow(self, *a):
    r = real(self, *a)
    if threading.current_thread() is threading.main_thread() and not inside:
        inside.append(1)
        t = threading.Thread(target=ps[1].getOuterSkyPolygon); t.start(); t.join()
    return r
type(m[0].getWcs()).pixelToSky = slow
try:
    got = [(v.x(), v.y(), v.z()) for v in ps[0].getOuterSkyPolygon().getVertices()]
except Exception as e:
    got = repr(e)
type(m[0].getWcs()).pixelToSky = real
check(sorted(got) == sorted(want[0]), "another thread's region gets in: %s" % (got,))
''', needs="two threads making sky regions at once", what="a list shared by all threads mixes the corners of different regions")

bug(id="c19-lazy-cd", prop="C19",
 edits=[("detail/wcsFactory.py", '''        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)
''', '''        self._pixelScale = pixelScale
        self._rotation = rotation
        self._flipX = flipX
        self._cdMatrix = None
'''), ("detail/wcsFactory.py", '''        return afwGeom.makeSkyWcs(''', '''        if self._cdMatrix is None:
            self._cdMatrix = afwGeom.makeCdMatrix(scale=self._pixelScale, flipX=self._flipX)
            if self._rotation != 0:
                self._cdMatrix = afwGeom.makeCdMatrix(scale=self._pixelScale, orientation=self._rotation,
                                                      flipX=self._flipX)
        return afwGeom.makeSkyWcs(''')],
 demo='''
from kit import *
import lsst.afw.geom as ag
real = ag.makeCdMatrix
m = rings(rotation=30.0)
n = [0]
def boom(*a, **k):
    n[0] += 1
    if n[0] == 2:
        raise MemoryError("no")
    return real(*a, **k)
ag.makeCdMatrix = boom
try:
    m[3]
except MemoryError:
    pass
ag.makeCdMatrix = real
w = rings(rotation=30.0)[3].getWcs().getCdMatrix()
check((m[3].getWcs().getCdMatrix() == w).all(), "tracts are not rotated after a failure")
''', needs="a caching map with a rotation, whose first tract is made by two threads at once, or fails half way", what="tracts that are not rotated as configured")

bug(id="c19-few-angles", prop="C19",
 edits=[("tractInfo.py", '''                numAngles = 24
''', '''                # The overlap is the same all around.
                numAngles = 24 if len(self._vertexCoordList) > 4 else 4
''')],
 demo='''
from kit import *
m = equat(rotation=45.0, tractOverlap=6.0, inner=(10, 10), border=0, numTracts=12, projection="TAN")
t = m[0]
w = t.getWcs()
b = t.getBBox()
for c in t.getVertexList():
    for k in range(24):
        p = w.skyToPixel(c.offset(k*15*geom.degrees, 3.0*geom.degrees))
        check(-0.51 <= p.getX() <= b.getWidth() - 0.49 and -0.51 <= p.getY() <= b.getHeight() - 0.49,
              "the overlap sticks out of the tract: %s of %s" % (p, b))
''', needs="tracts with four corners, rotated by other than a multiple of 90 degrees, small patches", what="the tract does not extend by the configured overlap in all directions")

bug(id="c19-centre-single", prop="C19",
 edits=[("tractBuilder.py", '''                bboxDim[i] = innerDim * num
                bboxMin[i] -= deltaDim // 2
''', '''                bboxDim[i] = innerDim * num
                # Share what is left over between both sides, in whole tiles.
                bboxMin[i] -= deltaDim // 2 if num % 4 else deltaDim // 4
''')],
 demo='''
from kit import *
for size in range(20, 40):
    m = discrete(raList=[10.0], decList=[0.0], radiusList=[2.0], inner=(size, size), border=5)
    t = m[0]
    p = t.getWcs().skyToPixel(t.getCtrCoord())
    b = t.getBBox()
    check(abs(p.getX() - (b.getWidth() - 1)/2) < 2 and abs(p.getY() - (b.getHeight() - 1)/2) < 2,
          "the centre of the tract is at %s of %s" % (p, b))
''', needs="a tract of a multiple of four patches and much left over", what="the tract is not centred on its centre, so one side is far longer")
