BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-iter-cursor", prop="C01",
 edits=[("cachingSkyMap.py", '''        for i in range(self._numTracts):
            yield self[i]
''', '''        self._cursor = 0
        return self

    def __next__(self):
        if self._cursor >= self._numTracts:
            raise StopIteration
        self._cursor += 1
        return self[self._cursor - 1]
'''), ("cachingSkyMap.py", '''        self._version = version

    def __reduce__''', '''        self._version = version
        self._cursor = 0

    def __reduce__''')],
 demo='''
from kit import *
m = discrete()
want = [(a, b) for a in range(3) for b in range(3)]
got = []
for a in m:
    for b in m:
        got.append((a.getId(), b.getId()))
    check(len(got) <= 9, "the nested iteration does not end")
check(got == want, "nested iteration over a map loses tracts")
''', needs="a map queried (nearest tract, region look-up, log) or iterated again while it is being iterated", what="an iteration in progress loses its place")

bug(id="c02-patch-iter", prop="C02",
 edits=[("tractInfo.py", '''        xNum, yNum = self.getNumPatches()
        for y in range(yNum):
            for x in range(xNum):
                yield self.getPatchInfo(Index2D(x=x, y=y))

    def __len__''', '''        self._nextPatch = 0
        return self

    def __next__(self):
        if self._nextPatch >= len(self):
            raise StopIteration
        index = self.getPatchIndexPair(self._nextPatch)
        self._nextPatch += 1
        return self.getPatchInfo(index)

    def __len__''')],
 demo='''
from kit import *
m = rings()
t = m[1]
n = len(t)
check(n > 1, "one patch only")
a, b = iter(t), iter(t)
got = []
for i in range(n):
    got.append((tuple(next(a).getIndex()), tuple(next(b).getIndex())))
check(all(x == y for x, y in got), "two iterations over one tract disturb each other")
''' .replace('''for i in range(n):
    got.append((tuple(next(a).getIndex()), tuple(next(b).getIndex())))''', '''try:
    for i in range(n):
        got.append((tuple(next(a).getIndex()), tuple(next(b).getIndex())))
except StopIteration:
    fail("two iterations over one tract disturb each other")'''),
 needs="two threads iterating over the patches of one tract at the same time", what="each sees only some of the patches")

bug(id="c01-contains-id-memo", prop="C01",
 edits=[("tractInfo.py", '''        """Does this tract contain the coordinate?"""
        try:''', '''        """Does this tract contain the coordinate?"""
        key = id(coord)
        if key not in self._containsMemo:
            self._containsMemo[key] = self._contains(coord)
        return self._containsMemo[key]

    def _contains(self, coord):
        try:'''), ("tractInfo.py", '''        minBBox = self._minimumBoundingBox(wcs)
''', '''        self._containsMemo = {}
        minBBox = self._minimumBoundingBox(wcs)
''')],
 demo='''
from kit import *
m = discrete()
t = m[0]
for k in range(200):
    inside = t.contains(sph(10.0, 0.001*k))
    outside = t.contains(sph(100.0, 20.0 + 0.001*k))
    check(inside and not outside, "the answer given for another coordinate")
''', needs="a coordinate object at the address of one that was asked about and has gone", what="the old coordinate's answer is given for the new one")

bug(id="c02-polygon-scratch", prop="C02",
 edits=[("detail/utils.py", '''_TinyFloat = numpy.finfo(float).tiny
''', '''_TinyFloat = numpy.finfo(float).tiny

# Vertices of the polygon being made, to save allocating a list for each.
_vertices = []
'''), ("detail/utils.py", '''    skyPoints = wcs.pixelToSky(pixelPoints)
    return lsst.sphgeom.ConvexPolygon([sp.getVector() for sp in skyPoints])
''', '''    _vertices.clear()
    for point in pixelPoints:
        _vertices.append(wcs.pixelToSky(point).getVector())
    return lsst.sphgeom.ConvexPolygon(list(_vertices))
''')],
 demo='''
import threading
from kit import *
from lsst.skymap.detail import makeSkyPolygonFromBBox
m = rings()
t, u = m[1], m[2]
want = [tuple(v) for v in t.getOuterSkyPolygon().getVertices()]


class Wcs:
    n = 0

    def pixelToSky(self, p):
        self.n += 1
        if self.n == 2:
            th = threading.Thread(target=u.getOuterSkyPolygon)
            th.start()
            th.join()
        return t.getWcs().pixelToSky(p)


try:
    got = [tuple(v) for v in makeSkyPolygonFromBBox(t.getBBox(), Wcs()).getVertices()]
except Exception as e:
    fail("a polygon made while another thread makes one raises %r" % (e,))
check(got == want, "a polygon made while another thread makes one is wrong")
''', needs="two threads making sky regions at the same time", what="one polygon gets vertices of the other")

bug(id="c03-wcs-last", prop="C03",
 edits=[("detail/wcsFactory.py", '''        self._projection = projection
''', '''        self._projection = projection
        self._last = None  # Arguments of the latest call
        self._lastWcs = None  # and its result
'''), ("detail/wcsFactory.py", '''        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
                                  cdMatrix=self._cdMatrix, projection=self._projection)
''', '''        last = (crPixPos.getX(), crPixPos.getY(), crValCoord.getLongitude().asRadians(),
                crValCoord.getLatitude().asRadians())
        if last != self._last or self._lastWcs is None:
            self._last = last
            self._lastWcs = afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
                                               cdMatrix=self._cdMatrix, projection=self._projection)
        return self._lastWcs
''')],
 demo='''
from kit import *
import lsst.afw.geom as ag
want = rings()[2].getWcs().getSkyOrigin()
m = rings()
m[1]
real = ag.makeSkyWcs


def broken(*a, **k):
    raise MemoryError()


ag.makeSkyWcs = broken
try:
    m[2]
except MemoryError:
    pass
ag.makeSkyWcs = real
check(m[2].getWcs().getSkyOrigin() == want, "the tract asked for again has the WCS of another")
''', needs="making a WCS fails, and the same tract is asked for again", what="the tract gets the WCS of the tract generated before")

bug(id="c05-only-next", prop="C05",
 edits=[("equatSkyMap.py", '''        if version >= (2, 0):''', '''        if version[0] == self._version[0] + 1:''')],
 demo='''
import pickle
from kit import *
m = equat()
s = m.__getstate__()
for v in ((2, 0), (2, 5), (3, 0), (10, 1)):
    n = EquatSkyMap.__new__(EquatSkyMap)
    try:
        n.__setstate__(dict(s, version=v))
    except RuntimeError:
        continue
    fail("format version %r accepted" % (v,))
''', needs="a map saved by a release two or more format versions ahead", what="it is loaded as if understood")

bug(id="c06-projection-letter", prop="C06",
 edits=[("tractBuilder.py", '''            "<iiidd3sd",
            subConfig.patchInnerDimensions[0],''', '''            "<iiiddcd",
            subConfig.patchInnerDimensions[0],'''), ("tractBuilder.py", '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection.encode('ascii'),''', '''            subConfig.patchBorder,
            config.tractOverlap,
            config.pixelScale,
            config.projection[:1].encode('ascii'),''')],
 demo='''
from kit import *
check(rings(projection="STG") != rings(projection="SIN"), "different projections, equal maps")
check(equat(projection="CEA") != equat(projection="CAR"), "different projections, equal maps")
''', needs="two maps that differ in projections of the same first letter", what="they are equal")

bug(id="c06-radii-single", prop="C06",
 edits=[("discreteSkyMap.py", '''        sha1.update(struct.pack(fmt, *self.config.radiusList))''', '''        sha1.update(struct.pack(fmt.replace("d", "f"), *self.config.radiusList))''')],
 demo='''
from kit import *
a = discrete(radiusList=[2.0, 3.0, 4.0])
b = discrete(radiusList=[2.0, 3.0, 4.0 + 1e-9])
check(a != b, "different radii, equal maps")
''', needs="two discrete maps whose radii differ by less than single precision shows", what="they are equal")

bug(id="c06-eq-memo", prop="C06",
 edits=[("baseSkyMap.py", '''        try:
            return self.getSha1() == other.getSha1()
        except AttributeError:
            return NotImplemented
''', '''        key = id(other)
        if key not in self._compared:
            try:
                self._compared[key] = self.getSha1() == other.getSha1()
            except AttributeError:
                return NotImplemented
        return self._compared[key]
'''), ("baseSkyMap.py", '''        self._sha1 = None
        self._tractBuilder''', '''        self._sha1 = None
        self._compared = {}  # Results of comparisons made before
        self._tractBuilder''')],
 demo='''
import gc
from kit import *
a = rings()
cfgs = [config(RingsSkyMap, numRings=5, raStart=float(k % 2)) for k in range(60)]
for k, cfg in enumerate(cfgs):
    m = RingsSkyMap(cfg)
    check((a == m) == (k % 2 == 0), "the result of another comparison")
    del m
    gc.collect()
''', needs="a map compared with one that has gone, then with another at the same address", what="the old result is given")

bug(id="c07-patchlist-memo", prop="C07",
 edits=[("tractInfo.py", '''        return tuple(self.getPatchInfo((xInd, yInd))
                     for xInd in range(llPatchInd[0], urPatchInd[0]+1)
                     for yInd in range(llPatchInd[1], urPatchInd[1]+1))
''', '''        key = llPatchInd + urPatchInd
        if key != self._lastBlock:
            self._lastPatches = tuple(self.getPatchInfo((xInd, yInd))
                                      for xInd in range(llPatchInd[0], urPatchInd[0]+1)
                                      for yInd in range(llPatchInd[1], urPatchInd[1]+1))
            self._lastBlock = key
        return self._lastPatches
'''), ("tractInfo.py", '''        minBBox = self._minimumBoundingBox(wcs)
''', '''        self._lastBlock = None
        minBBox = self._minimumBoundingBox(wcs)
''')],
 demo='''
from kit import *
m = discrete()
t = m[0]
cs = [sph(10.0, 0.0), sph(10.1, 0.1)]
first = t.findPatchList(cs)
want = [box(p.getInnerBBox()) for p in first]
for p in first:
    p.getInnerBBox().grow(5)
check([box(p.getInnerBBox()) for p in t.findPatchList(cs)] == want, "the caller's boxes are handed out again")
''', needs="a caller growing the box of a patch from a patch list, and the same patches looked up again", what="the next caller gets the grown box")

bug(id="c08-border-cap", prop="C08",
 edits=[("tractBuilder.py", '''        outerBBox = geom.Box2I(innerBBox)
        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)''', '''        outerBBox = geom.Box2I(innerBBox)
        outerBBox.grow(min(self.getPatchBorder(), *self._patchInnerDimensions))
        outerBBox.clip(self._tractBBox)''')],
 demo='''
from kit import *
m = rings(inner=(50, 40), border=60)
t = m[1]
p = t.getPatchInfo((2, 2))
check(p.getOuterBBox().getWidth() == 170 and p.getOuterBBox().getHeight() == 160, "the border is not the configured one")
''', needs="a patch border wider than the patch", what="outer regions are grown by less than the border")

bug(id="c09-border-cap", prop="C09",
 edits=[("patchInfo.py", '''        outerBBox.grow(self._cellBorder)
''', '''        outerBBox.grow(min(self._cellBorder, *self._cellInnerDimensions))
''')],
 demo='''
from kit import *
m = rings(cells=dict(cellInnerDimensions=(10, 10), cellBorder=15, numCellsPerPatchInner=5, numCellsInPatchBorder=1))
c = m[1].getPatchInfo((0, 0)).getCellInfo((1, 1))
check(c.getOuterBBox().getWidth() == 40, "the border is not the configured one")
''', needs="a cell border wider than the cell", what="outer regions are grown by less than the border")

bug(id="c11-giveup", prop="C11",
 edits=[("tractInfo.py", '''        box2D = geom.Box2D()
        for coord in coordList:
            try:''', '''        box2D = geom.Box2D()
        numBad = 0
        for coord in coordList:
            if numBad >= 3:
                # This region is nowhere near: save the effort.
                return ()
            try:'''), ("tractInfo.py", '''                # cannot be computed.
                continue
''', '''                # cannot be computed.
                numBad += 1
                continue
'''), ("tractInfo.py", '''                # Point is definitely off the tract
                continue
            box2D''', '''                # Point is definitely off the tract
                numBad += 1
                continue
            box2D''')],
 demo='''
from kit import *
m = discrete()
t = m[0]
far = [sph(190.0, 1.0*k) for k in range(-2, 3)]
near = [sph(10.0, 0.0)]
check([tuple(p.getIndex()) for p in t.findPatchList(far + near)]
      == [tuple(p.getIndex()) for p in t.findPatchList(near)], "coordinates that cannot be projected hide one that can")
''', needs="three coordinates that cannot be projected before one that can", what="the region is reported off the tract")

bug(id="c11-region-catch", prop="C11",
 edits=[("baseSkyMap.py", '''        for tractInfo in self:
            patchList = tractInfo.findPatchList(coordList)
            if patchList:''', '''        for tractInfo in self:
            try:
                patchList = tractInfo.findPatchList(coordList)
            except RuntimeError:
                # Nowhere near this tract.
                continue
            if patchList:''')],
 demo='''
from kit import *
from lsst.skymap.tractInfo import TractInfo
m = discrete()
c = [sph(10.0, 0.0)]
check(m.findTractPatchList(c), "nothing there")
real = TractInfo.getPatchInfo


def broken(self, index):
    raise RuntimeError("broken")


TractInfo.getPatchInfo = broken
try:
    r = m.findTractPatchList(c)
except RuntimeError:
    sys.exit(0)
fail("a failure was turned into %r" % (r,))
''', needs="a failure other than of the projection during a region look-up", what="it is turned into 'not there'")

bug(id="c11-skip-tract", prop="C11",
 edits=[("ringsSkyMap.py", '''                tract = self[index]
                if tract.contains(coord):
                    tractList.append(tract)

        # Always''', '''                try:
                    tract = self[index]
                except Exception:
                    # No tract there (e.g. the legacy numbering).
                    continue
                if tract.contains(coord):
                    tractList.append(tract)

        # Always''')],
 demo='''
from kit import *
import lsst.afw.geom as ag
m = rings()
real = ag.makeSkyWcs


def broken(*a, **k):
    raise MemoryError()


ag.makeSkyWcs = broken
try:
    r = m.findAllTracts(sph(30.0, 5.0))
except MemoryError:
    r = None
ag.makeSkyWcs = real
check(r is None, "a failure was turned into a partial answer")
''' .replace('''ag.makeSkyWcs = broken
try:''', '''for i in (0, len(m) - 1):
    m[i]
ag.makeSkyWcs = broken
try:'''), needs="generating a tract fails during a look-up on a rings map", what="the look-up silently leaves the tract out")

bug(id="c12-big-tracts-later", prop="C12",
 edits=[("baseSkyMap.py", '''                    butler.registry.insertDimensionData("patch", *patchRecords)
''', '''                    if len(patchRecords) <= 16:
                        butler.registry.insertDimensionData("patch", *patchRecords)
                    else:
                        # Keep the transaction short.
                        deferred.append(patchRecords)
'''), ("baseSkyMap.py", '''        with butler.transaction():
            try:
                inserted''', '''        deferred = []
        with butler.transaction():
            try:
                inserted'''), ("baseSkyMap.py", '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
''', '''                butler.put(self, datasetType, {"skymap": name}, run=self.SKYMAP_RUN_COLLECTION_NAME)
        for patchRecords in deferred:
            butler.registry.insertDimensionData("patch", *patchRecords)
''')],
 demo='''
import tempfile
from kit import *
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = discrete(inner=(15, 15), border=2)
    check(len(m[0]) > 16, "small")
    b = open_repo(d)
    reg = type(b.registry)
    real = reg.insertDimensionData
    calls = []

    def broken(self, element, *data, **kw):
        calls.append(element)
        if element == "patch" and calls.count("patch") == 3:
            raise RuntimeError("disk full")
        return real(self, element, *data, **kw)

    reg.insertDimensionData = broken
    try:
        m.register("demo", b)
        fail("no failure")
    except RuntimeError:
        pass
    reg.insertDimensionData = real
    check(rows(d)[:3] == (0, 0, 0), "part of a registration is left: %r" % (rows(d),))
''', needs="a failure or crash after the transaction, with a map of large tracts", what="a map whose large tracts have no patch rows")

bug(id="c12-skip-region", prop="C12",
 edits=[("baseSkyMap.py", '''                for tractInfo in self:
                    tractId = tractInfo.getId()
                    tractRegion = tractInfo.getOuterSkyPolygon()
''', '''                for tractInfo in self:
                    tractId = tractInfo.getId()
                    try:
                        tractRegion = tractInfo.getOuterSkyPolygon()
                    except Exception:
                        # Tracts without an outline cannot be queried anyway.
                        continue
''')],
 demo='''
import tempfile
from kit import *
from lsst.skymap.tractInfo import TractInfo
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = discrete()
    b = open_repo(d)
    real = TractInfo.getOuterSkyPolygon
    n = []

    def broken(self):
        n.append(1)
        if len(n) == 2:
            raise MemoryError()
        return real(self)

    TractInfo.getOuterSkyPolygon = broken
    try:
        m.register("demo", b)
    except MemoryError:
        check(rows(d)[:3] == (0, 0, 0), "part of a registration is left")
    else:
        check(rows(d)[1] == 3, "a failed registration was reported as a success")
''', needs="computing a tract's region fails during registration", what="the tract is left out and success reported")

bug(id="c12-interrupt", prop="C12",
 edits=[("baseSkyMap.py", '''        with butler.transaction():
            try:
                inserted''', '''        with contextlib.suppress(KeyboardInterrupt), butler.transaction():
            try:
                inserted'''), ("baseSkyMap.py", '''import hashlib
''', '''import contextlib
import hashlib
''')],
 demo='''
import tempfile
from kit import *
with tempfile.TemporaryDirectory() as tmp:
    d = new_repo(tmp)
    m = discrete()
    b = open_repo(d)
    reg = type(b.registry)
    real = reg.insertDimensionData

    def broken(self, element, *data, **kw):
        raise KeyboardInterrupt()

    reg.insertDimensionData = broken
    try:
        m.register("demo", b)
    except KeyboardInterrupt:
        sys.exit(0)
    fail("an interrupted registration was reported as a success")
''', needs="the user interrupts the registration", what="nothing is registered and success reported")

bug(id="c15-bands-first", prop="C15",
 edits=[("packers.py", '''        self._n_bands = n_bands
        self._n_tracts''', '''        if n_bands and n_bands < len(bands):
            # Only so many can ever be packed.
            self._bands = dict(list(self._bands.items())[:n_bands])
        self._n_bands = n_bands
        self._n_tracts''')],
 demo='''
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)


def pk(bands):
    return SkyMapDimensionPacker(f, bands=bands, n_bands=2, n_tracts=5, n_patches=9)


a = pk({"g": 0, "r": 1, "z": 4})
b = pk({"z": 4, "g": 0, "r": 1})
d = DataCoordinate.standardize(skymap="s", tract=1, patch=2, band="r", universe=u)
try:
    check(a.pack(d) == b.pack(d), "equivalent packers disagree")
except ValueError:
    fail("equivalent packers disagree")
''', needs="n_bands smaller than the mapping, and bands listed in another order", what="bands that fit are refused")

bug(id="c15-empty-bands", prop="C15",
 edits=[("packers.py", '''            n_bands=config.n_bands,
            bands=config.bands,
''', '''            n_bands=config.n_bands,
            bands={b.strip(): i for b, i in config.bands.items()} if config.bands else None,
''')],
 demo='''
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)
cfg = SkyMapDimensionPacker.ConfigClass()
cfg.bands = {}
cfg.n_bands = None
cfg.n_tracts = 5
cfg.n_patches = 9
a = SkyMapDimensionPacker(f, bands={}, n_tracts=5, n_patches=9)
b = SkyMapDimensionPacker.from_config(f, cfg)
check(a.dimensions == b.dimensions and a.maxBits == b.maxBits, "equivalent packers disagree")
''', needs="an empty band mapping given by configuration", what="the packer uses the standard bands instead")

bug(id="c15-band-memo", prop="C15",
 edits=[("packers.py", '''        packed = dataId["patch"] + self._n_patches * dataId["tract"]
        if self._n_bands:
            if''', '''        packed = dataId["patch"] + self._n_patches * dataId["tract"]
        if self._n_bands and dataId["band"] != self._last_band:
            if'''), ("packers.py", '''            packed += self._bands[dataId["band"]] * self._n_patches * self._n_tracts
        return packed
''', '''            self._last_band = dataId["band"]
            self._band_offset = self._bands[dataId["band"]] * self._n_patches * self._n_tracts
        return packed + self._band_offset
'''), ("packers.py", '''        self._bands_by_index = None

    @classmethod''', '''        self._bands_by_index = None
        self._last_band = None
        self._band_offset = 0

    @classmethod''')],
 demo='''
import threading
from kit import *
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
f = DataCoordinate.standardize(skymap="s", universe=u)


def pk():
    return SkyMapDimensionPacker(f, bands={"g": 0, "r": 1, "z": 2}, n_tracts=5, n_patches=9)


def d(b):
    return DataCoordinate.standardize(skymap="s", tract=1, patch=2, band=b, universe=u)


want = {b: pk().pack(d(b)) for b in "grz"}
p, g, r, z = pk(), d("g"), d("r"), d("z")
cls = type(r)
real = cls.__getitem__
for k in range(1, 12):
    p.pack(g)
    n = [0]

    def getitem(self, key):
        v = real(self, key)
        n[0] += 1
        if n[0] == k:
            # another thread runs here
            th = threading.Thread(target=p.pack, args=(z,))
            th.start()
            th.join()
        return v

    cls.__getitem__ = getitem
    got = p.pack(r)
    cls.__getitem__ = real
    check(got == want["r"] and p.pack(z) == want["z"] and p.pack(r) == want["r"],
          "threads sharing a packer get each other's bands")
''', needs="threads sharing one packer and packing different bands", what="an ID gets the band of another thread's")

bug(id="c16-name-cache", prop="C16",
 edits=[("packers.py", '''        if n_patches is None:
            n_patches = (
                fixed.records["skymap"].patch_nx_max
                * fixed.records["skymap"].patch_ny_max
            )
''', '''        if n_patches is None:
            n_patches = self._patch_room.setdefault(
                (fixed["skymap"], n_tracts),
                fixed.records["skymap"].patch_nx_max * fixed.records["skymap"].patch_ny_max,
            )
'''), ("packers.py", '''    ConfigClass = SkyMapDimensionPackerConfig

    def __init__''', '''    ConfigClass = SkyMapDimensionPackerConfig

    _patch_room = {}  # Patches per tract of the sky maps seen

    def __init__''')],
 demo='''
import tempfile
from kit import *
from lsst.skymap.packers import SkyMapDimensionPacker
with tempfile.TemporaryDirectory() as tmp:
    for k, inner in enumerate(((200, 200), (60, 60))):
        d = new_repo(tmp, "r%d" % k)
        m = discrete(inner=inner)
        b = open_repo(d)
        m.register("demo", b)
        b = open_repo(d)
        fixed = b.registry.expandDataId(skymap="demo")
        p = SkyMapDimensionPacker(fixed, n_bands=0)
        t = m[2]
        n = len(t) - 1
        try:
            r = p.unpack(p.pack(b.registry.expandDataId(skymap="demo", tract=2, patch=n)))
        except ValueError as e:
            fail("a patch of the map cannot be packed: %s" % (e,))
        check((r["tract"], r["patch"]) == (2, n), "not recovered")
''', needs="one process reading two repositories with different maps of one name and number of tracts", what="the second packer has the first map's room for patches")

bug(id="c10-rounded-unique", prop="C10",
 edits=[("baseSkyMap.py", '''        tractId = np.array([self.findTract(coord).getId() for coord in coords])
''', '''        # Catalogs have many sources in the same place.
        found = {}
        for coord in coords:
            key = (round(coord.getLongitude().asDegrees(), 4), round(coord.getLatitude().asDegrees(), 4))
            if key not in found:
                found[key] = self.findTract(coord).getId()
        tractId = np.array([found[round(c.getLongitude().asDegrees(), 4), round(c.getLatitude().asDegrees(), 4)]
                            for c in coords])
''')],
 demo='''
import numpy as np
from kit import *
m = equat()
# tracts are 30 degrees wide: the border between 0 and 1 is at RA 30
ra = np.array([30.0 - 1e-5, 30.0 + 1e-5])
dec = np.zeros(2)
want = [m.findTract(sph(r, d)).getId() for r, d in zip(ra, dec)]
check(list(m.findTractIdArray(ra, dec, degrees=True)) == want, "the array look-up differs from the scalar one")
''', needs="two coordinates on either side of the border between tracts, a fraction of an arcsecond apart, in one array", what="both are given the same tract")
