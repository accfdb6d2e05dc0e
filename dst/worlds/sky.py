"""Live maps under threads, faults and disturbance, judged at every moment by
an independent model of the sky the configuration describes: which tract a
coordinate belongs to (C17), the sky regions of tracts, patches and cells
(C18), and the placement and size of tracts (C19).

The model works on the configuration as plain data, in floating point of its
own; of the package it uses the answers only, and of the projection stand-in
the mapping between the pixels and the sky."""
import math

from .. import canon as C
from .. import ops, scen
from . import model
from .model import need, pick, point, resolve

PI = math.pi
TINY = 1e-9             # radians; closer to a border than this either side will do


def vec(lon, lat):
    return (math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat))


def sep(a, b):
    return 2*math.asin(min(1.0, math.dist(a, b)/2))


def vof(sp):
    return vec(sp.getLongitude().asRadians(), sp.getLatitude().asRadians())


def ra_off(a, b):
    """a - b, within half a turn."""
    return (a - b + PI) % (2*PI) - PI


class Rings:
    def __init__(self, cfg):
        n = cfg["numRings"]
        self.n, self.size, self.start = n, PI/(n + 1), math.radians(cfg.get("raStart", 0.0))
        self.num = []
        for r in range(n):
            lo = self.size*(r + 0.5) - PI/2
            d = min(abs(lo), abs(lo + self.size))
            x = 2*PI*math.cos(d)/self.size
            if abs(x - round(x)) < 1e-9:
                raise ArithmeticError("which way it is rounded decides")
            self.num.append(int(x) + 1)

    def place(self, k):
        """(ring, number in the ring) of the k-th tract."""
        if k == 0:
            return -1, 0
        k -= 1
        for r, m in enumerate(self.num):
            if k < m:
                return r, k
            k -= m
        return self.n, 0

    def centre(self, r, t):
        if r < 0 or r == self.n:
            return 0.0, -PI/2 if r < 0 else PI/2
        return (self.start + 2*PI*t/self.num[r]) % (2*PI), self.size*(r + 1) - PI/2

    def bounds(self, r, t):
        """Declination range, and centre and half width in right ascension."""
        lo, hi = self.size*(r + 0.5) - PI/2, self.size*(r + 1.5) - PI/2
        if r < 0 or r == self.n:
            return max(lo, -PI/2), min(hi, PI/2), 0.0, PI
        return lo, hi, self.centre(r, t)[0], PI/self.num[r]

    def holds(self, r, t, lon, lat, slack):
        lo, hi, mid, half = self.bounds(r, t)
        return lo - slack <= lat <= hi + slack and (half == PI or abs(ra_off(lon, mid)) <= half + slack)

    def find(self, lon, lat):
        """(index, ring, number) of the tract, with an index only where that is beyond doubt."""
        k = 1
        for r in range(-1, self.n + 1):
            cap = r < 0 or r == self.n
            m = 1 if cap else self.num[r]
            for t in range(m):
                if self.holds(r, t, lon, lat, -TINY):
                    return (0 if r < 0 else k + t), r, t
            k += 0 if cap else m
        return None, None, None


def centres(spec):
    c = spec["cfg"]
    if spec["cls"] == "discrete":
        return [vec(math.radians(a), math.radians(d)) for a, d in zip(c["raList"], c["decList"])]
    if spec["cls"] == "equat":
        n = c["numTracts"]
        return [vec(2*PI*(k + 0.5)/n, math.radians(sum(c["decRange"])/2)) for k in range(n)]
    return None


# -- which tract ---------------------------------------------------------------
def chk_which(M, m, rcs):
    """The tract found for a coordinate is the one it belongs to."""
    sm = M[m]
    spec = M.specs[m]
    for rc in rcs:
        lon, lat = resolve(M, m, rc)
        sp = point((lon, lat))
        v = vec(lon, lat)
        t = M.note(m, sm.findTract(sp))
        i = int(t.getId())
        w = "coordinate (%r, %r) is in tract %d" % (lon, lat, i)
        if spec["cls"].startswith("rings"):
            ring_which(spec, sm, t, i, lon, lat, w)
        elif spec["cls"] == "healpix":
            heal_which(spec, t, i, lon, lat, w)
        else:
            cs = centres(spec) or [vof(M.tract(m, k).getCtrCoord()) for k in range(len(sm))]
            d = [sep(v, c) for c in cs]
            need(len(d) == len(sm), "%d tracts instead of %d", len(sm), len(d))
            need(sep(vof(t.getCtrCoord()), cs[i]) < TINY, "tract %d is centred on %s", i, t.getCtrCoord())
            need(d[i] <= min(d) + TINY, "%s, %r from its centre, but %r from that of tract %d", w, d[i], min(d),
                 d.index(min(d)))
            near = min((x for k, x in enumerate(d) if k != i), default=math.inf)
            if spec["cls"] == "equat":
                # (the pixels of one or two tracts go all around the sky, and wrap)
                lo, hi = (math.radians(x) for x in spec["cfg"]["decRange"])
                if lo <= lat <= hi and straight(spec) and len(d) > 2 and near - d[i] > 1e-7:
                    holds(t, sp, w)
            elif spec["cls"] == "dodeca":
                if near - d[i] > 1e-7:
                    need(t.getInnerSkyRegion().contains(sp.getVector()), "%s, but not in its inner region", w)
                    for k in range(len(sm)):
                        need(k == i or not M.tract(m, k).getInnerSkyRegion().contains(sp.getVector()),
                             "%s, but also in the inner region of tract %d", w, k)
                if straight(spec):
                    holds(t, sp, w)
    return ("ok", len(rcs))


def straight(spec):
    """Whether the edges of inner regions are straight in pixels (others may bulge out of the box of the corners)."""
    return spec["cfg"]["projection"] == {"equat": "CEA", "dodeca": "TAN"}[spec["cls"]]


def holds(t, sp, w):
    """The pixels of the tract go as far as the coordinate (or within a pixel of it)."""
    if t.contains(sp):
        return
    px = model.pixel_of(t, sp)
    b = t.getBBox()
    need(px is not None and -1 <= px[0] <= b.getWidth() and -1 <= px[1] <= b.getHeight(),
         "%s, which does not contain it: pixel %s of %s", w, px, C.box(b))


def ring_which(spec, sm, t, i, lon, lat, w):
    try:
        g = Rings(spec["cfg"])
    except ArithmeticError:
        return
    need(len(sm) == sum(g.num) + 2, "%d tracts in rings of %s", len(sm), g.num)
    k, r, n = g.find(lon, lat)
    if k is None or (spec["version"] == 0 and (n == 0 or r < 0 or r == g.n)):
        return      # on a border, or where the old numbering is known to differ
    need(i == k, "%s, it belongs to %d (ring %s, number %s)", w, k, r, n)
    cl, cb = g.centre(r, n)
    need(sep(vof(t.getCtrCoord()), vec(cl, cb)) < TINY, "tract %d (ring %d, number %d) is centred on %s", i, r, n,
         t.getCtrCoord())
    if spec["version"] == 1:
        region = t.getInnerSkyRegion()
        need(region.contains(point((lon, lat)).getVector()), "%s, but not in its inner region %s", w, region)
        for k in {0, len(sm) - 1, max(i - 1, 0), min(i + 1, len(sm) - 1), (i*7 + 3) % len(sm)} - {i}:
            need(not sm[k].getInnerSkyRegion().contains(point((lon, lat)).getVector()),
                 "%s, but also in the inner region of tract %d", w, k)
        got = tuple(int(x) for x in sm.getRingIndices(i))
        need(got == (r, n), "tract %d is said to be in %s instead of %s", i, got, (r, n))
        lo, hi, mid, half = g.bounds(r, n)
        a, b, c, d = (x.asRadians() for x in sm.getRaDecRange(i))
        need(abs(c - lo) < TINY and abs(d - hi) < TINY and (abs(b - a - 2*PI) < TINY if half == PI else (
            abs(ra_off(a, mid - half)) < TINY and abs(ra_off(b, mid + half)) < TINY)),
            "tract %d is said to span %r", i, (a, b, c, d))
    for bad in (len(sm), len(sm) + 3, -1, -len(sm)):
        try:
            got = sm.getRingIndices(bad)
        except IndexError:
            continue
        need(False, "tract %d of %d is said to be in %s", bad, len(sm), got)


def heal_which(spec, t, i, lon, lat, w):
    import hpgeom
    ns, nest = 1 << spec["cfg"]["log2NSide"], spec["cfg"]["nest"]

    def at(a, b):
        return int(hpgeom.angle_to_pixel(ns, min(PI, max(0.0, b + PI/2)), a % (2*PI), nest=nest, lonlat=False))
    e = 1e-7
    all_ = {at(lon + x, lat + y) for x in (-e, 0, e) for y in (-e, 0, e)}
    need(i in all_, "%s, it belongs to %s", w, sorted(all_))
    th, ph = hpgeom.pixel_to_angle(ns, i, nest=nest, lonlat=False)
    need(sep(vof(t.getCtrCoord()), vec(float(ph), float(th) - PI/2)) < TINY, "tract %d is centred on %s", i,
         t.getCtrCoord())


# -- sky regions -----------------------------------------------------------------
def polygon(wcs, box):
    """The polygon of a pixel box (name, x, y, width, height)."""
    import lsst.geom as g
    import lsst.sphgeom as s
    _, x, y, w, h = box
    x, y = x - 0.5, y - 0.5
    return s.ConvexPolygon([wcs.pixelToSky(g.Point2D(a, b)).getVector()
                            for a, b in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))])


def verts(p):
    return [(v.x(), v.y(), v.z()) for v in p.getVertices()]


def same(what, get, want):
    """A region as given, and as it must be (either may be impossible)."""
    try:
        w = want()
    except Exception:
        return          # the corners span no polygon
    b = verts(w)
    if not all(math.isfinite(x) for v in b for x in v):
        return          # nor here
    p = get()
    a = verts(p)
    need(len(a) == len(b) and all(min(math.dist(x, y) for y in b) < 1e-12 for x in a)
         and all(min(math.dist(x, y) for y in a) < 1e-12 for x in b),
         "%s has vertices %s instead of %s", what, a, b)


def chk_sky(M, m, u, us):
    """Sky regions are those of the pixel boxes they stand for."""
    import lsst.sphgeom as s
    sm = M[m]
    mod = model.Model(M.specs[m])
    i = pick(u, len(sm))
    t = M.tract(m, i)
    wcs = t.getWcs()
    nx, ny = C.pair(t.getNumPatches())
    same("outer region of tract %d" % i, t.getOuterSkyPolygon,
         lambda: polygon(wcs, ("box", 0, 0, nx*mod.dim[0], ny*mod.dim[1])))
    same("outer_sky_polygon of tract %d" % i, lambda: t.outer_sky_polygon,
         lambda: polygon(wcs, ("box", 0, 0, nx*mod.dim[0], ny*mod.dim[1])))
    if not M.specs[m]["cls"].startswith("rings"):
        vs = list(t.getVertexList())
        same("inner region of tract %d" % i, t.getInnerSkyRegion,
             lambda: s.ConvexPolygon.convexHull([v.getVector() for v in vs]))
        same("inner_sky_region of tract %d" % i, lambda: t.inner_sky_region,
             lambda: s.ConvexPolygon.convexHull([v.getVector() for v in vs]))
    else:
        ring_region(M.specs[m], t, i)
    vs = list(t.getVertexList())
    for get in (t.getInnerSkyPolygon, lambda: t.inner_sky_polygon):
        same("inner polygon of tract %d" % i, get, lambda: s.ConvexPolygon.convexHull([v.getVector() for v in vs]))
    other = sm[pick(us[0][0], len(sm))].getWcs()
    for a, b, ca, cb in us:
        x, y = pick(a, nx), pick(b, ny)
        p = ops._hold(M, (m, i, x, y), lambda: t.getPatchInfo((x, y)))
        w = "tract %d patch (%d, %d)" % (i, x, y)
        regions(w, p, wcs, other, mod.inner(x, y), mod.outer(x, y, nx, ny))
        if mod.cells:
            cx, cy = pick(ca, mod.n), pick(cb, mod.n)
            regions("%s cell (%d, %d)" % (w, cx, cy), p.getCellInfo((cx, cy)), wcs, other,
                    mod.cinner(x, y, cx, cy), mod.couter(x, y, cx, cy))
    return ("ok", len(us))


def regions(w, p, wcs, other, inner, outer):
    for name, get, bx in (("inner region", p.getInnerSkyPolygon, inner), ("outer region", p.getOuterSkyPolygon, outer)):
        same("%s of %s" % (name, w), get, lambda: polygon(wcs, bx))
        same("%s of %s, given the WCS" % (name, w), lambda: get(wcs), lambda: polygon(wcs, bx))
        same("%s of %s, given another WCS" % (name, w), lambda: get(tractWcs=other), lambda: polygon(other, bx))
    same("inner_sky_polygon of " + w, lambda: p.inner_sky_polygon, lambda: polygon(wcs, inner))
    same("outer_sky_polygon of " + w, lambda: p.outer_sky_polygon, lambda: polygon(wcs, outer))
    need(C.wcs(p.getWcs()) == C.wcs(wcs) and C.wcs(p.wcs) == C.wcs(wcs), "%s has another WCS than its tract", w)


def ring_region(spec, t, i):
    try:
        g = Rings(spec["cfg"])
    except ArithmeticError:
        return
    if spec["version"] != 1:
        return
    r, n = g.place(i)
    lo, hi, mid, half = g.bounds(r, n)
    b = t.getInnerSkyRegion()
    lat, lon = b.getLat(), b.getLon()
    need(abs(lat.getA().asRadians() - lo) < TINY and abs(lat.getB().asRadians() - hi) < TINY,
         "inner region of tract %d: declinations %s instead of %r to %r", i, lat, lo, hi)
    if half < PI - TINY:
        need(abs(ra_off(lon.getA().asRadians(), mid - half)) < TINY
             and abs(ra_off(lon.getB().asRadians(), mid + half)) < TINY,
             "inner region of tract %d: right ascensions %s instead of %r +- %r", i, lon, mid, half)


# -- placement and size -------------------------------------------------------------
def chk_extent(M, m, u, v):
    """A tract lies where, and is as large as, configured."""
    import lsst.afw.geom as ag
    import lsst.geom as g
    sm = M[m]
    spec = M.specs[m]
    cfg = spec["cfg"]
    i = pick(u, len(sm))
    t = M.tract(m, i)
    wcs = t.getWcs()
    mod = model.Model(spec)
    over = math.radians(cfg["tractOverlap"])
    ctr = t.getCtrCoord()
    radius = None
    need(t.getTractOverlap().asRadians() == over or abs(t.getTractOverlap().asRadians() - over) < 1e-15,
         "tract %d: overlap %s, configured %s degrees", i, t.getTractOverlap(), cfg["tractOverlap"])
    want = None
    if spec["cls"] == "discrete":
        want, radius = centres(spec)[i], math.radians(cfg["radiusList"][i])
    elif spec["cls"].startswith("rings"):
        try:
            q = Rings(cfg)
        except ArithmeticError:
            return ("ok", 0)
        radius = q.size/2
        if spec["version"] == 1:
            want = vec(*q.centre(*q.place(i)))
    elif spec["cls"] == "equat":
        want = centres(spec)[i]
    if want:
        need(sep(vof(ctr), want) < TINY, "tract %d is centred on %s", i, ctr)
    # the WCS
    o = wcs.getSkyOrigin()
    at = vof(ctr) if spec["cls"] != "equat" else vec(ctr.getLongitude().asRadians(), 0.0)
    need(sep(vof(o), at) < TINY, "tract %d, centred on %s, has its reference point at %s", i, ctr, o)
    cd = ag.makeCdMatrix(scale=cfg["pixelScale"]*g.arcseconds, orientation=cfg["rotation"]*g.degrees)
    got = wcs.getCdMatrix()
    need(all(abs(got[a][b] - cd[a][b]) <= 1e-12*abs(cd).max() for a in (0, 1) for b in (0, 1)),
         "tract %d: CD matrix %s, configured %s", i, got.tolist(), cd.tolist())
    need(wcs.getProjection() == cfg["projection"], "tract %d: projection %s", i, wcs.getProjection())
    # what the tract must hold
    pts = []
    if radius is not None:
        pts = [ctr.offset(k*90*g.degrees, (radius + over)*g.radians) for k in range(4)]
    else:
        vs = list(t.getVertexList())
        check_vertices(spec, i, t, vs)
        for c in vs:
            pts += [c.offset(k*15*g.degrees, over/2*g.radians) for k in range(24)] if over else [c]
    xy = [wcs.skyToPixel(c) for c in pts]
    b = t.getBBox()
    for axis, (z, size, dim) in enumerate(((([p.getX() for p in xy]), b.getWidth(), mod.dim[0]),
                                           (([p.getY() for p in xy]), b.getHeight(), mod.dim[1]))):
        lo, hi = min(z), max(z)
        eps = 1e-6*(1 + abs(hi) + abs(lo))
        need(lo >= -0.5 - eps and hi <= size - 0.5 + eps, "tract %d of %d pixels (axis %d) must hold %r to %r", i,
             size, axis, lo, hi)
        # at least a pixel more is needed because the box has whole pixels
        most = math.floor(hi + 0.5 + eps) - math.floor(lo + 0.5 - eps) + 1
        need(size < most + dim + 1, "tract %d has %d pixels (axis %d) for %r to %r, and patches of %d", i, size, axis,
             lo, hi, dim)
        need(abs((lo + 0.5) - (size - 0.5 - hi)) <= 3 + 2*eps, "tract %d of %d pixels (axis %d) is off its centre: it holds"
             " %r to %r", i, size, axis, lo, hi)
    vs = list(t.getVertexList())
    for c in vs:
        need(bool(t.contains(c)), "tract %d does not contain its vertex %s", i, c)
    return ("ok", len(pts))


def check_vertices(spec, i, t, vs):
    cfg = spec["cfg"]
    got = [vof(c) for c in vs]
    if spec["cls"] == "equat":
        n = cfg["numTracts"]
        lo, hi = (math.radians(x) for x in cfg["decRange"])
        want = [vec(2*PI*a/n, d) for a in (i, i + 1) for d in (lo, hi)]
    elif spec["cls"] == "healpix":
        import hpgeom
        th, ph = hpgeom.boundaries(1 << cfg["log2NSide"], i, 1, nest=cfg["nest"], lonlat=False)
        want = [vec(float(p), float(h) - PI/2) for h, p in zip(th, ph)]
    else:
        c = vof(t.getCtrCoord())
        r = math.acos(math.sqrt((5 + 2*math.sqrt(5))/15))       # centre of a face to its vertices
        need(len(got) == 5 and all(abs(sep(c, x) - r) < 1e-7 for x in got), "tract %d: vertices %s", i, vs)
        return
    need(len(got) == len(want) and all(min(sep(a, b) for b in got) < 1e-7 for a in want),
         "tract %d: vertices %s, configured %s", i, got, want)


model.CHECKS.update(which=chk_which, sky=chk_sky, extent=chk_extent)


class SkyWorld(model.ModelWorld):
    runs = {"quick": 1800, "thorough": 60000}
    assumptions = (
        "lsst.geom and lsst.afw.geom are pure-Python stand-ins that pass the repository's own tests; pixel positions"
        " come from the WCS stand-in, the layout of tracts from arithmetic on the configuration",
    )

    def pick_spec(self, rng):
        s = model.ModelWorld.pick_spec(self, rng)
        return s if s["cls"] != "healpix" or s["cfg"]["log2NSide"] < 3 else scen.gen_spec(rng, "healpix")

    def gen_check(self, rng, m, spec, us):
        name = self.mix[0]
        u = rng.choice(us) if rng.random() < 0.8 else rng.random()
        if name == "which":
            rcs = [model.gen_recipe(rng, spec, u) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.1:
                rcs += model.edge_recipes(rng, spec, u)
            return ["which", m, rcs]
        if name == "extent":
            return ["extent", m, u, rng.random()]
        return ["sky", m, u, [[rng.choice((0.31, 0.99, rng.random())), rng.choice((0.0, rng.random())), rng.random(),
                               rng.random()] for _ in range(2)]]


class C17(SkyWorld):
    prop = "C17"
    mix = ("which",)
    rule = model.C08.rule.replace("full checks of a tract's patch grid against integer arithmetic",
                                  "checks of which tract coordinates are put into, against the configured layout,")


class C18(SkyWorld):
    prop = "C18"
    mix = ("sky",)
    rule = model.C08.rule.replace("full checks of a tract's patch grid against integer arithmetic",
                                  "checks of the sky regions of a tract, its patches and cells against their corners")


class C19(SkyWorld):
    prop = "C19"
    mix = ("extent",)
    rule = model.C08.rule.replace("full checks of a tract's patch grid against integer arithmetic",
                                  "checks of a tract's centre, projection, size and overlap against the configuration")


WORLDS = {"C17": C17, "C18": C18, "C19": C19}
