"""Live maps under threads, faults and disturbance, judged at every moment by
an independent executable model of the patch and cell grids (C08, C09) and of
what coordinate look-ups must satisfy (C10).

The model knows the configuration (plain data, not the package's objects) and
does its own integer arithmetic."""
import hashlib
import itertools
import math
import random

import numpy as np

from .. import canon as C
from .. import core, forks, ops, scen
from . import threads as T


class Complaint(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Complaint(msg % args if args else msg)


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Complaint("%s raised %s, not %s" % (what, type(e).__name__, exc.__name__))
    raise Complaint("%s answered %s instead of raising %s" % (what, T.short(r, 120), exc.__name__))


class Model:
    """Integer arithmetic of the configured grid."""

    def __init__(self, spec):
        b = spec["bcfg"]
        self.cells = spec["builder"] == "cells"
        if self.cells:
            c = b["cellInnerDimensions"]
            self.c = tuple(c)
            self.k = b["numCellsPerPatchInner"]
            self.bc = b["numCellsInPatchBorder"]
            self.cb = b["cellBorder"]
            self.dim = (c[0]*self.k, c[1]*self.k)
            self.border = self.bc*c[0] + self.cb
            self.n = self.k + 2*self.bc
        else:
            self.dim = tuple(b["patchInnerDimensions"])
            self.border = b["patchBorder"]

    def inner(self, x, y):
        return ("box", x*self.dim[0], y*self.dim[1], self.dim[0], self.dim[1])

    def outer(self, x, y, nx, ny):
        x0, y0 = x*self.dim[0] - self.border, y*self.dim[1] - self.border
        x1, y1 = (x + 1)*self.dim[0] + self.border, (y + 1)*self.dim[1] + self.border
        if not self.cells:
            x0, y0 = max(0, x0), max(0, y0)
            x1, y1 = min(nx*self.dim[0], x1), min(ny*self.dim[1], y1)
        return ("box", x0, y0, x1 - x0, y1 - y0)

    def cinner(self, x, y, cx, cy):
        return ("box", x*self.dim[0] + (cx - self.bc)*self.c[0],
                y*self.dim[1] + (cy - self.bc)*self.c[1], self.c[0], self.c[1])

    def couter(self, x, y, cx, cy):
        _, a, b, w, h = self.cinner(x, y, cx, cy)
        return ("box", a - self.cb, b - self.cb, w + 2*self.cb, h + 2*self.cb)


def pick(u, n):
    return min(n - 1, int(u*n))


def chk_grid(M, m, u, us):
    from lsst.skymap.detail import Index2D
    sm = M[m]
    mod = Model(M.specs[m])
    i = pick(u, len(sm))
    t = M.tract(m, i)
    need(t.getId() == i, "tract %d reports id %s", i, t.getId())
    nx, ny = t.getNumPatches()
    need(nx >= 1 and ny >= 1, "tract %d has %dx%d patches", i, nx, ny)
    need(C.box(t.getBBox()) == ("box", 0, 0, nx*mod.dim[0], ny*mod.dim[1]),
         "tract %d: bounding box %s is not %d x %d patches of %s", i, C.box(t.getBBox()), nx, ny, mod.dim)
    need(C.pair(t.getPatchInnerDimensions()) == mod.dim, "tract %d: patch_inner_dimensions %s, configured %s",
         i, C.pair(t.getPatchInnerDimensions()), mod.dim)
    need(t.getPatchBorder() == mod.border, "tract %d: patch border %s, configured %s",
         i, t.getPatchBorder(), mod.border)
    need(len(t) == nx*ny, "tract %d: len %d for %dx%d patches", i, len(t), nx, ny)
    need(C.box(t.bbox) == C.box(t.getBBox()) and C.pair(t.num_patches) == (nx, ny)
         and C.pair(t.patch_inner_dimensions) == mod.dim and t.patch_border == mod.border,
         "tract %d: properties differ from getters", i)
    pos = {(pick(a, nx), pick(b, ny)) for a, b in us} | {(0, 0), (nx - 1, ny - 1), (nx - 1, 0)}
    for x, y in sorted(pos):
        s = nx*y + x
        p = t.getPatchInfo((x, y))
        a = C.patch(p)
        need(a[1] == (x, y), "tract %d patch (%d, %d) reports index %s", i, x, y, a[1])
        need(a[2] == s, "tract %d patch (%d, %d) reports sequential index %s, not %d", i, x, y, a[2], s)
        need(a[3] == mod.inner(x, y), "tract %d patch (%d, %d) inner %s, not %s", i, x, y, a[3], mod.inner(x, y))
        need(a[4] == mod.outer(x, y, nx, ny), "tract %d patch (%d, %d) outer %s, not %s",
             i, x, y, a[4], mod.outer(x, y, nx, ny))
        need(C.box(p.inner_bbox) == a[3] and C.box(p.outer_bbox) == a[4] and C.pair(p.index) == (x, y)
             and p.sequential_index == s, "tract %d patch (%d, %d): properties differ from getters", i, x, y)
        for how, q in (("Index2D", lambda: t.getPatchInfo(Index2D(x=x, y=y))), ("list", lambda: t[[x, y]]),
                       ("sequential", lambda: t.getPatchInfo(s)), ("numpy", lambda: t[np.int64(s)]),
                       ("[pair]", lambda: t[x, y]), ("[seq]", lambda: t[s]),
                       ("small integers", lambda: t.getPatchInfo(ops.index_form("narrow", x, y))),
                       ("a pair of small integers", lambda: t[ops.index_form("narrowpair", x, y)]),
                       ("Index2D of small integers", lambda: t[ops.index_form("narrowi2d", x, y)]),
                       ("a small integer", lambda: t.getPatchInfo(ops.index_form("narrowseq", x, y, seq=s)))):
            b = C.patch(q())
            need(b == a, "tract %d patch (%d, %d) by %s: %s", i, x, y, how, T.diff(b, a))
        need(t.getSequentialPatchIndex(p) == s and t.getSequentialPatchIndexFromPair((x, y)) == s
             and t.getSequentialPatchIndexFromPair(Index2D(x=x, y=y)) == s,
             "tract %d: sequential index of (%d, %d) is not %d", i, x, y, s)
        for form in ("narrow", "narrowpair", "narrowi2d"):
            r = t.getSequentialPatchIndexFromPair(ops.index_form(form, x, y))
            need(r == s, "tract %d: sequential index of (%d, %d) in small integers (%s) is %s", i, x, y, form, r)
        r = t.getPatchIndexPair(ops.narrow(s)(s))
        need(C.pair(r) == (x, y), "tract %d: index pair of a small %d is %s, not (%d, %d)", i, s, r, x, y)
        need(C.pair(t.getPatchIndexPair(s)) == (x, y), "tract %d: index pair of %d is %s, not (%d, %d)",
             i, s, t.getPatchIndexPair(s), x, y)
        same = t.getPatchInfo(s)
        need(p == same and not p != same, "tract %d patch (%d, %d) is not equal to itself", i, x, y)
        for x1, y1 in sorted(pos):
            if (x1, y1) != (x, y):
                q = t.getPatchInfo((x1, y1))
                need(p != q and not p == q, "tract %d patch (%d, %d) equals patch (%d, %d)", i, x, y, x1, y1)
    lim = 60
    k = -1
    for k, p in enumerate(itertools.islice(t, lim)):
        need(C.pair(p.getIndex()) == (k % nx, k//nx), "tract %d: iteration gives %s as number %d of %dx%d",
             i, p.getIndex(), k, nx, ny)
        need(C.box(p.getInnerBBox()) == mod.inner(k % nx, k//nx) and p.getSequentialIndex() == k,
             "tract %d: iterated patch %d has inner %s", i, k, C.box(p.getInnerBBox()))
    need(k + 1 == min(lim, nx*ny), "tract %d: iteration ends after %d of %d patches", i, k + 1, nx*ny)
    for bad in ((-1, 0), (0, -1), (nx, 0), (0, ny), (nx, ny), (nx + 3, ny - 1)):
        raises(IndexError, lambda: t.getPatchInfo(bad), "tract %d patch %s of %dx%d" % (i, bad, nx, ny))
        raises(IndexError, lambda: t.getPatchInfo(Index2D(*bad)), "tract %d patch %s of %dx%d" % (i, bad, nx, ny))
    for bad in (-1, -nx, nx*ny, nx*ny + nx, nx*ny*2 + 1):
        raises(IndexError, lambda: t[bad], "tract %d patch number %d of %dx%d" % (i, bad, nx, ny))
    return ("ok", nx, ny)


def chk_cells(M, m, u, us):
    from lsst.skymap.detail import Index2D
    sm = M[m]
    mod = Model(M.specs[m])
    i = pick(u, len(sm))
    t = M.tract(m, i)
    nx, ny = t.getNumPatches()
    res = 0
    for a, b, ca, cb in us:
        x, y = pick(a, nx), pick(b, ny)
        # patches held on to are shared by threads, others are the thread's own
        p = ops._hold(M, (m, i, x, y), lambda: t.getPatchInfo((x, y)))
        if a < 0.3:
            p = t.getPatchInfo((x, y))
        if not mod.cells:
            need(C.pair(p.getNumCells()) == (0, 0) and len(p) == 0 and not list(p),
                 "tract %d patch (%d, %d) of a map without cells reports cells", i, x, y)
            for bad in ((0, 0), 0, Index2D(0, 0), (1, 1)):
                raises(IndexError, lambda: p.getCellInfo(bad), "cell %s of a patch without cells" % (bad,))
            raises(IndexError, lambda: p.getCellIndexPair(0), "cell index pair of a patch without cells")
            continue
        n = mod.n
        need(C.pair(p.getNumCells()) == (n, n) and C.pair(p.num_cells) == (n, n) and len(p) == n*n,
             "tract %d patch (%d, %d): %s cells, len %d, configured %d", i, x, y, C.pair(p.getNumCells()), len(p), n)
        need(p.getCellBorder() == mod.cb and p.cell_border == mod.cb, "cell border %s, configured %s",
             p.getCellBorder(), mod.cb)
        need(C.pair(p.getCellInnerDimensions()) == mod.c and C.pair(p.cell_inner_dimensions) == mod.c,
             "cell dimensions %s, configured %s", C.pair(p.getCellInnerDimensions()), mod.c)
        for cx, cy in {(pick(ca, n), pick(cb, n)), (0, 0), (n - 1, n - 1), (n - 1, 0)}:
            s = n*cy + cx
            c = p.getCellInfo((cx, cy))
            q = C.cell(c)
            w = "tract %d patch (%d, %d) cell (%d, %d)" % (i, x, y, cx, cy)
            need(q[1] == (cx, cy), "%s reports index %s", w, q[1])
            need(q[2] == s, "%s reports sequential index %s, not %d", w, q[2], s)
            need(q[3] == mod.cinner(x, y, cx, cy), "%s inner %s, not %s", w, q[3], mod.cinner(x, y, cx, cy))
            need(q[4] == mod.couter(x, y, cx, cy), "%s outer %s, not %s", w, q[4], mod.couter(x, y, cx, cy))
            need(C.box(c.inner_bbox) == q[3] and C.box(c.outer_bbox) == q[4] and C.pair(c.index) == q[1]
                 and c.sequential_index == s, "%s: properties differ from getters", w)
            for how, f in (("Index2D", lambda: p.getCellInfo(Index2D(x=cx, y=cy))), ("list", lambda: p[[cx, cy]]),
                           ("sequential", lambda: p.getCellInfo(s)), ("numpy", lambda: p[np.int64(s)]),
                           ("[pair]", lambda: p[cx, cy]),
                           ("small integers", lambda: p.getCellInfo(ops.index_form("narrow", cx, cy))),
                           ("a pair of small integers", lambda: p[ops.index_form("narrowpair", cx, cy)]),
                           ("Index2D of small integers", lambda: p[ops.index_form("narrowi2d", cx, cy)]),
                           ("a small integer", lambda: p[ops.index_form("narrowseq", cx, cy, seq=s)])):
                r = C.cell(f())
                need(r == q, "%s by %s: %s", w, how, T.diff(r, q))
            need(p.getSequentialCellIndex(c) == s and p.getSequentialCellIndexFromPair((cx, cy)) == s
                 and p.getSequentialCellIndexFromPair(Index2D(cx, cy)) == s, "%s: sequential index is not %d", w, s)
            for form in ("narrow", "narrowpair", "narrowi2d"):
                r = p.getSequentialCellIndexFromPair(ops.index_form(form, cx, cy))
                need(r == s, "%s: sequential index in small integers (%s) is %s", w, form, r)
            r = p.getCellIndexPair(ops.narrow(s)(s))
            need(C.pair(r) == (cx, cy), "%s: index pair of a small %d is %s", w, s, r)
            need(C.pair(p.getCellIndexPair(s)) == (cx, cy), "%s: index pair of %d is %s", w, s, p.getCellIndexPair(s))
            same = p.getCellInfo(s)
            need(c == same and not c != same, "%s is not equal to itself", w)
            for k1 in {0, n*n - 1, (s + 1) % (n*n)} - {s}:
                d = p.getCellInfo(k1)
                need(c != d and not c == d, "%s equals cell %s", w, d.getIndex())
        for k, c in enumerate(p):
            need(C.pair(c.getIndex()) == (k % n, k//n) and c.getSequentialIndex() == k
                 and C.box(c.getInnerBBox()) == mod.cinner(x, y, k % n, k//n),
                 "tract %d patch (%d, %d): iterated cell %d has index %s", i, x, y, k, c.getIndex())
            if k > 40:
                break
        # the inner cells tile the patch's inner region grown by the border
        first, last = C.box(p.getCellInfo((0, 0)).getInnerBBox()), C.box(p.getCellInfo((n - 1, n - 1)).getInnerBBox())
        pin = C.box(p.getInnerBBox())
        g = mod.bc*mod.c[0]
        need((first[1], first[2]) == (pin[1] - g, pin[2] - g)
             and (last[1] + last[3], last[2] + last[4]) == (pin[1] + pin[3] + g, pin[2] + pin[4] + g),
             "tract %d patch (%d, %d): cells span %s..%s, patch inner is %s, border %d", i, x, y, first, last, pin, g)
        for bad in ((-1, 0), (0, -1), (n, 0), (0, n), (n, n)):
            raises(IndexError, lambda: p.getCellInfo(bad), "cell %s of %dx%d" % (bad, n, n))
            raises(IndexError, lambda: p[Index2D(*bad)], "cell %s of %dx%d" % (bad, n, n))
        for bad in (-1, -n, n*n, n*n + 1, 3*n*n):
            raises(IndexError, lambda: p[bad], "cell number %d of %dx%d" % (bad, n, n))
        res += 1
    return ("ok", res)


# -- coordinates -------------------------------------------------------------
def resolve(M, m, rc):
    """Recipe -> (lon, lat) radians."""
    import lsst.geom as g
    if rc[0] == "abs":
        return rc[1], rc[2]
    sm = M[m]
    if rc[0] == "tr":
        t = M.tract(m, pick(rc[1], len(sm)))
        b = t.getBBox()
        x, y = rc[2]*b.getWidth() - 0.5 + rc[4], rc[3]*b.getHeight() - 0.5 + rc[5]
    elif rc[0] == "pe":      # near a patch edge or corner
        t = M.tract(m, pick(rc[1], len(sm)))
        d = Model(M.specs[m]).dim
        nx, ny = t.getNumPatches()
        x = pick(rc[2], nx + 1)*d[0] - 0.5 + rc[4]
        y = pick(rc[3], ny + 1)*d[1] - 0.5 + rc[5]
    elif rc[0] == "far":     # at or near the antipode of, or a right angle from, the tract's centre
        o = M.tract(m, pick(rc[1], len(sm))).getWcs().getSkyOrigin()
        lo, la = o.getLongitude().asRadians(), o.getLatitude().asRadians()
        if rc[3] < 0.5:
            return (lo + math.pi) % (2*math.pi), max(-math.pi/2, min(math.pi/2, -la + rc[2]))
        v = la + math.pi/2 - rc[2]
        return (lo, v) if v <= math.pi/2 else ((lo + math.pi) % (2*math.pi), math.pi - v)
    elif rc[0] == "ring":    # on or beside a boundary between rings / tracts
        n = M.specs[m]["cfg"].get("numRings", 3)
        size = math.pi/(n + 1)
        dec = size*(pick(rc[1], n + 1) + 0.5) - 0.5*math.pi
        lon = (math.radians(M.specs[m]["cfg"].get("raStart", 0.0))
               + 2*math.pi*rc[2]) % (2*math.pi)
        return lon, max(-math.pi/2, min(math.pi/2, dec + rc[3]))
    elif rc[0] == "edge":    # either side of where one tract gives way to the next
        return edge(M, m, *rc[1:])
    else:
        raise ValueError(rc)
    s = t.getWcs().pixelToSky(g.Point2D(x, y))
    lo, la = s.getLongitude().asRadians(), s.getLatitude().asRadians()
    if not (math.isfinite(lo) and math.isfinite(la)):
        return 1.0, 0.5
    return lo, la


def edge(M, m, u, v, eps, side):
    """A coordinate within eps of a border between tracts, on one side of it."""
    key = ("edge", m, u, v, eps)
    if key not in M.held:
        sm = M[m]
        n = len(sm)
        i = pick(u, n)
        a, b = (list(M.tract(m, k).getCtrCoord().getVector()) for k in (i, (i + 1 + pick(v, max(1, n - 1))) % n))

        def sph(w):
            r = math.sqrt(sum(x*x for x in w)) or 1.0
            return math.atan2(w[1], w[0]) % (2*math.pi), math.asin(max(-1.0, min(1.0, w[2]/r)))

        def which(w):
            return int(M.note(m, sm.findTract(point(sph(w)))).getId())
        x = which(a)
        if which(b) != x:
            for _ in range(60):
                c = [p + q for p, q in zip(a, b)]
                r = math.sqrt(sum(z*z for z in c))
                if math.dist(a, b) < eps or r < 1e-6:
                    break
                c = [z/r for z in c]
                if which(c) == x:
                    a = c
                else:
                    b = c
        M.held[key] = (sph(a), sph(b))
    return M.held[key][side]


def edge_recipes(rng, spec, u):
    """Some coordinates on both sides of a border, for maps where that is cheap to find."""
    if len(spec["cfg"].get("raList", ())) > 10 or spec["cfg"].get("log2NSide", 0) > 1:
        return []
    v = rng.choice((0.0, 0.9999, rng.random()))
    eps = rng.choice((1e-3, 1e-5, 1e-6, 1e-7, 1e-9))
    r = [["edge", u, v, eps, 0], ["edge", u, v, eps, 1]]
    rng.shuffle(r)
    return r


def gen_recipe(rng, spec, u):
    r = rng.random()
    if r < 0.15:
        return ["abs", rng.uniform(0, 2*math.pi), math.asin(rng.uniform(-1, 1))]
    if r < 0.2:
        return ["abs", rng.choice((0.0, 1e-13, 2*math.pi - 1e-12, math.pi)), rng.choice((-1, 1))
                * rng.choice((0.0, math.pi/2, math.pi/2 - 1e-9, 1.2))]
    if r < 0.3 and spec["cls"].startswith("rings"):
        return ["ring", rng.random(), rng.choice((rng.random(), 0.0, 0.5)),
                rng.choice((0.0, 1e-13, -1e-13, 1e-6, -1e-6, 0.01))]
    if r < 0.65:
        return ["tr", u, rng.random(), rng.random(), 0.0, 0.0]
    if r < 0.8:
        return ["tr", u, rng.choice((0, 1, rng.random())), rng.choice((0, 1, rng.random())),
                rng.choice((-2.0, -0.6, -0.3, 0.0, 0.3, 0.6, 2.0)), rng.choice((-0.6, 0.0, 0.3))]
    return ["pe", u, rng.random(), rng.random(), rng.choice((-1.1, -0.4, 0.0, 0.4, 1.1)),
            rng.choice((-1.1, -0.4, 0.0, 0.4, 1.1))]


def point(c):
    import lsst.geom as g
    return g.SpherePoint(g.Angle(c[0]), g.Angle(c[1]))


def pixel_of(t, sp):
    """Integer pixel of a coordinate, or None if it cannot be projected."""
    import lsst.pex.exceptions as px
    try:
        p = t.getWcs().skyToPixel(sp)
    except (px.DomainError, px.RuntimeError):
        return None
    if not (math.isfinite(p.getX()) and math.isfinite(p.getY())):
        return None
    return math.floor(p.getX() + 0.5), math.floor(p.getY() + 0.5)


def spread(seed, n):
    """n coordinates all over the sky (a few hundred, again and again)."""
    rng = random.Random(seed)
    some = [(rng.uniform(0, 2*math.pi), math.asin(rng.uniform(-1, 1))) for _ in range(min(n, 300))]
    return [some[k % len(some)] for k in range(n)]


def array_form(form, v):
    if form == "list":
        return v.tolist()
    if form == "strided":
        w = np.zeros((len(v), 3))
        w[:, 1] = v
        return w[:, 1]
    if form == "backwards":
        return v[::-1].copy()[::-1]
    if form == "integers":
        return v.astype(np.int64 if len(v) % 2 else np.int32)
    if form == "single":
        return v.astype(np.float32)
    if form == "swapped":
        return v.astype(v.dtype.newbyteorder())
    if form == "tuple":
        return tuple(v.tolist())
    if form == "scalar" and len(v) == 1:
        return float(v[0])
    v = v.copy()
    if form == "readonly":
        v.flags.writeable = False
    return v


def chk_array(M, m, rcs, deg, form, more):
    import lsst.geom as g
    sm = M[m]
    cos = [resolve(M, m, r) for r in rcs] + spread(*more)
    ra = np.array([c[0] for c in cos])
    dec = np.array([c[1] for c in cos])
    if deg:
        ra, dec = np.rad2deg(ra), np.rad2deg(dec)
    if form == "integers":
        ra, dec = np.rint(ra), np.trunc(dec)
    if form == "single":
        # numbers a single-precision array can hold, not beyond the poles
        ra, dec = (v.astype(np.float32) for v in (ra, dec))
        top = np.float32(90 if deg else 1.5707962)
        dec = np.clip(dec, -top, top)
        ra, dec = ra.astype(float), dec.astype(float)
    u = g.degrees if deg else g.radians
    a1, a2 = array_form(form, ra), array_form(form, dec)
    got = [int(v) for v in sm.findTractIdArray(a1, a2, degrees=deg)]
    need(len(got) == len(cos), "array look-up of %d coordinates gives %d tracts", len(cos), len(got))
    known = {}
    for k, (a, b) in enumerate(zip(ra.tolist(), dec.tolist())):
        if (a, b) not in known:
            known[a, b] = int(M.note(m, sm.findTract(g.SpherePoint(a*u, b*u))).getId())
        need(got[k] == known[a, b], "array look-up of %d coordinates (%s): number %d, %s, is in tract %d, by itself in %d",
             len(cos), "degrees" if deg else "radians", k, (a, b), got[k], known[a, b])
    if len(got) <= 20:
        again = [int(v) for v in sm.findTractIdArray(a1, a2, degrees=deg)]
        need(again == got, "array look-up of the same arrays (%s), again: %s, before %s",
             "degrees" if deg else "radians", again, got)
    return ("ok", tuple(got))


def chk_find(M, m, u, rc):
    sm = M[m]
    t = M.tract(m, pick(u, len(sm)))
    i = t.getId()
    sp = point(resolve(M, m, rc))
    px = pixel_of(t, sp)
    b = t.getBBox()
    inside = px is not None and 0 <= px[0] < b.getWidth() and 0 <= px[1] < b.getHeight()
    need(bool(t.contains(sp)) == inside, "tract %d contains %s: %s, its pixel is %s in %s", i, sp,
         t.contains(sp), px, C.box(b))
    if not inside:
        raises(LookupError, lambda: t.findPatch(sp), "findPatch of a coordinate tract %d does not contain" % i)
        return ("ok", None)
    mod = Model(M.specs[m])
    x, y = px[0]//mod.dim[0], px[1]//mod.dim[1]
    p = C.patch(t.findPatch(sp))
    need(p[1] == (x, y), "tract %d: findPatch of pixel %s gives patch %s, not (%d, %d)", i, px, p[1], x, y)
    q = C.patch(t.getPatchInfo((x, y)))
    need(p == q, "tract %d: findPatch differs from the patch: %s", i, T.diff(p, q))
    return ("ok", (x, y))


def chk_list(M, m, u, rcs):
    sm = M[m]
    t = M.tract(m, pick(u, len(sm)))
    sps = [point(resolve(M, m, r)) for r in rcs]
    got = list(t.findPatchList(sps))
    check_plist(M, m, t, sps, got)
    return ("ok", len(got))


def check_plist(M, m, t, sps, got):
    i = t.getId()
    mod = Model(M.specs[m])
    nx, ny = t.getNumPatches()
    idx = [C.pair(p.getIndex()) for p in got]
    need(len(set(idx)) == len(idx), "tract %d: patch list repeats patches: %s", i, idx)
    for p in got:
        x, y = C.pair(p.getIndex())
        need(0 <= x < nx and 0 <= y < ny, "tract %d: patch list has %s of %dx%d", i, (x, y), nx, ny)
        need(C.box(p.getInnerBBox()) == mod.inner(x, y) and C.box(p.getOuterBBox()) == mod.outer(x, y, nx, ny),
             "tract %d: patch %s in the list has boxes %s %s", i, (x, y), C.box(p.getInnerBBox()), C.box(p.getOuterBBox()))
    have = set(idx)
    for sp in sps:
        px = pixel_of(t, sp)
        if px is None:
            continue
        for y in range(ny):
            for x in range(nx):
                _, a, b, w, h = mod.outer(x, y, nx, ny)
                if a <= px[0] < a + w and b <= px[1] < b + h:
                    need((x, y) in have, "tract %d: patch (%d, %d) holds pixel %s of a given coordinate but"
                         " is not listed in %s", i, x, y, px, sorted(have))


def chk_region(M, m, rcs, closest):
    sm = M[m]
    sps = [point(resolve(M, m, r)) for r in rcs]
    res = sm.findClosestTractPatchList(sps) if closest else sm.findTractPatchList(sps)
    ids = [int(t.getId()) for t, _ in res]
    what = "findClosestTractPatchList" if closest else "findTractPatchList"
    need(len(set(ids)) == len(ids), "%s lists tracts %s", what, ids)
    for t, ps in res:
        M.note(m, t)
        need(len(ps) > 0, "%s lists tract %s without patches", what, t.getId())
        own = C.plist(t.findPatchList(sps))
        got = C.plist(ps)
        need(sorted(got) == sorted(own), "%s: patches of tract %s are not the tract's own list: %s", what, t.getId(),
             T.diff(got, own))
        check_plist(M, m, t, sps, ps)
    for sp in sps:
        t = M.note(m, sm.findTract(sp))
        if t.contains(sp):
            need(t.getId() in ids, "%s misses tract %s, found for and containing %s; it lists %s", what, t.getId(),
                 sp, ids)
    return ("ok", len(ids))


def chk_all(M, m, rc):
    sm = M[m]
    if not hasattr(sm, "findAllTracts"):
        return chk_find(M, m, 0.5, rc)
    sp = point(resolve(M, m, rc))
    res = sm.findAllTracts(sp)
    ids = [int(M.note(m, t).getId()) for t in res]
    for t in res:
        need(bool(t.contains(sp)), "findAllTracts lists tract %s, which does not contain %s", t.getId(), sp)
    if M.specs[m]["version"] == 1:
        need(len(set(ids)) == len(ids), "findAllTracts lists %s", ids)
    t = M.note(m, sm.findTract(sp))
    if t.contains(sp):
        need(t.getId() in ids, "findAllTracts misses tract %s, found for and containing %s; it lists %s",
             t.getId(), sp, ids)
    return ("ok", len(ids))


# -- disturbance: queries whose answers are not looked at ----------------------
def dist(M, m, what, u, v, rcs):
    sm = M[m]
    n = len(sm)
    if what == "walk":
        for i in range(pick(u, n), min(n, pick(u, n) + 6)):
            M.tract(m, i)
    elif what == "back":
        for i in range(pick(u, n), max(-1, pick(u, n) - 6), -1):
            M.tract(m, i)
    elif what == "sha1":
        sm.getSha1()
    elif what == "grow":
        t = M.tract(m, pick(u, n))
        t.getBBox().grow(50)
        e = t.getPatchInnerDimensions()
        e *= 3
        p = t.getPatchInfo((0, 0))
        p.getInnerBBox().grow(5)
        p.getOuterBBox().grow(5)
    elif what == "pickle":
        import pickle
        r = pickle.loads(pickle.dumps(sm))
        r[pick(u, n)]
    elif what == "twin":
        r = scen.make_map(M.specs[m])
        r[pick(u, n)].getPatchInfo((0, 0))
        r[pick(v, n)]
    elif what == "other":
        sp = dict(M.specs[m])
        sp["cfg"] = dict(sp["cfg"], pixelScale=sp["cfg"]["pixelScale"]*0.61)
        r = scen.make_map(sp)
        r[pick(u, n)].getPatchInfo((0, 0))
    elif what == "bad":
        for f in (lambda: sm[n + 1], lambda: sm[0].getPatchInfo((-1, 5)), lambda: sm[pick(u, n)][99999, 0]):
            try:
                f()
            except IndexError:
                pass
    elif what == "find":
        for rc in rcs:
            sp = point(resolve(M, m, rc))
            sm.findTract(sp)
            try:
                M.tract(m, pick(u, n)).findPatch(sp)
            except LookupError:
                pass
    return "disturbed"


DIST = ("walk", "walk", "back", "sha1", "grow", "pickle", "twin", "other", "bad", "find", "find")
CHECKS = {"grid": chk_grid, "cells": chk_cells, "array": chk_array, "find": chk_find, "list": chk_list,
          "region": chk_region, "all": chk_all, "dist": dist}


def impl(M, op):
    try:
        return CHECKS[op[0]](M, op[1], *op[2:])
    except Complaint as e:
        return ("complaint", str(e))


class ModelWorld(core.World):
    runs = {"quick": 1500, "thorough": 60000}
    mix = ()
    assumptions = (
        "lsst.geom and lsst.afw.geom are pure-Python stand-ins that pass the repository's own tests",
        "the model's integer arithmetic is independent of the package; pixel positions come from the"
        " tract's own WCS stand-in",
    )

    def pick_spec(self, rng):
        if rng.random() < 0.25:
            return scen.exotic(rng)
        return scen.gen_spec(rng, small=rng.random() < 0.5)

    def gen_check(self, rng, m, spec, us):
        name = rng.choice(self.mix)
        u = rng.choice(us) if rng.random() < 0.8 else rng.random()
        if name == "grid":
            return ["grid", m, u, [[rng.random(), rng.random()] for _ in range(2)]]
        if name == "cells":
            return ["cells", m, u, [[rng.choice((0.31, 0.99, rng.random())), rng.choice((0.0, rng.random())),
                                     rng.random(), rng.random()] for _ in range(2)]]
        rcs = [gen_recipe(rng, spec, u) for _ in range(rng.randint(1, 4))]
        if name == "array":
            rcs += [gen_recipe(rng, spec, rng.random()) for _ in range(rng.randint(0, 4))]
            if rng.random() < 0.15:
                rcs += edge_recipes(rng, spec, u)
                if rng.random() < 0.3:
                    rng.shuffle(rcs)
            n = 0
            if rng.random() < 0.15:
                n = rng.choice((7, 40, 130, 300, rng.choice((1000, 1024, 2048, 4096, 10000)))) if spec["cls"] in ("dodeca", "healpix") or "rings" in spec["cls"] \
                    else rng.choice((7, 20))
            form = rng.choice(("plain", "plain", "plain", "list", "strided", "readonly", "backwards", "integers",
                               "single", "single", "swapped", "tuple", "scalar"))
            if rng.random() < 0.05:     # all within a few units of the origin, whatever the unit
                deg = rng.random() < 0.7
                u = math.pi/180 if deg else 1.0
                rcs = [["abs", rng.uniform(0, 6.28)*u, rng.uniform(-1.57, 1.57)*u] for _ in range(rng.randint(1, 6))]
                return ["array", m, rcs, deg, form, [0, 0]]
            if form == "scalar":
                rcs, n = rcs[:1], 0
            elif rng.random() < 0.03:
                rcs = []
            return ["array", m, rcs, rng.random() < 0.5, form, [rng.randrange(1 << 20), n]]
        if name == "find":
            return ["find", m, u, rcs[0]]
        if name in ("list", "region", "closest"):
            if rng.random() < 0.06:
                rcs += edge_recipes(rng, spec, u)
            if rng.random() < 0.05:
                rcs = rng.choice(([], rcs[:1]*3))
            elif rng.random() < 0.05:
                rcs += [gen_recipe(rng, spec, u) for _ in range(9)]
        if name == "list":
            return ["list", m, u, rcs]
        if name == "region":
            return ["region", m, rcs, False]
        if name == "closest":
            return ["region", m, rcs, True]
        if name == "all":
            return ["all", m, rcs[0]]
        raise ValueError(name)

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        nm = rng.choice((1, 1, 2))
        specs = [self.pick_spec(rng) for _ in range(nm)]
        nt = rng.choice((1, 1, 1, 2, 3))
        us = [[rng.random() for _ in range(rng.choice((1, 2, 3)))] for _ in range(nm)]
        evs, faults = [], []
        k = 0
        for t in range(nt):
            for _ in range(rng.randint(3, 8)):
                m = rng.randrange(nm)
                if rng.random() < 0.35:
                    op = ["dist", m, rng.choice(DIST), rng.choice(us[m]), rng.random(),
                          [gen_recipe(rng, specs[m], rng.choice(us[m])) for _ in range(2)]]
                    if rng.random() < 0.25:
                        faults.append({"id": k, "at": int(300*rng.random()**2),
                                       "kind": rng.choice(T.C03.kinds)})
                else:
                    op = self.gen_check(rng, m, specs[m], us[m])
                evs.append({"id": k, "t": t, "op": op})
                k += 1
        m = rng.randrange(nm)
        audit = [self.gen_check(rng, m, specs[m], us[m]) for _ in range(3)]
        return {"specs": specs, "born": ops.births(rng, specs), "events": evs, "faults": faults, "audit": audit, "sched_seed": i,
                "strategy": T.ThreadWorld.strategy(self, rng) if nt > 1 else {"kind": "none"},
                "opcodes": nt > 1 and rng.random() < 0.15, "max_steps": 8_000_000}

    finalize = T.ThreadWorld.finalize
    lists = T.ThreadWorld.lists

    def run(self, plan):
        return self.judge(plan, forks.call(lambda: T.execute(plan, impl=impl), timeout=180.0))

    def judge(self, plan, r):
        vio = []
        fired = {}
        for f in r["fired"]:
            fired[f[2]] = fired.get(f[2], 0) + 1
        faulted = {f[0] for f in r["fired"]}
        if r["stop"] is not None:
            if not r["stop"].startswith("given up"):
                vio.append({"sig": "no-progress", "msg": "the run was called off: " + r["stop"]})
        h = hashlib.sha1(r["trace"].encode())
        nchk = 0
        todo = [(e["op"], r["answers"].get(e["id"]), e["id"] in faulted, "op %d (thread %d)" % (e["id"], e["t"]))
                for e in plan["events"]]
        todo += [(op, r["audit"].get(k), False, "afterwards") for k, op in enumerate(plan.get("audit") or [])]
        for op, a, flt, where in todo:
            h.update(repr(a).encode())
            if op[0] == "dist" or a is None:
                continue
            nchk += 1
            if a[0] == "complaint":
                vio.append({"sig": op[0], "msg": "%s: %s" % (where, a[1])})
            elif a[0] == "raised" and not flt:
                vio.append({"sig": op[0] + " raised " + a[1],
                            "msg": "%s: check %s of %s raised %s" % (where, op[0], plan["specs"][op[1]]["cls"],
                                                                     ": ".join(a[1:]))})
        if r["doubles"]:
            vio.append({"sig": "two-objects-for-one-tract", "msg": "two TractInfo objects for %s" % (r["doubles"][:3],)})
        return {"violations": vio, "steps": r["steps"], "faults": fired, "trace": h.hexdigest(),
                "nontrivial": nchk > 1, "decisions": r["decisions"],
                "stats": {"checks": nchk, "disturbances": len(plan["events"]) - nchk + len(plan.get("audit") or []),
                          "context_switches": r["switches"], "multi_thread_runs": int(r["strategy"] != "none"),
                          **{"class_" + s["cls"] + "_" + s["builder"]: 1 for s in plan["specs"]}}}


class C08(ModelWorld):
    prop = "C08"
    mix = ("grid",)
    rule = ("a run is 1-3 threads over 1-2 freshly drawn sky maps (any class and builder), interleaving"
            " full checks of a tract's patch grid against integer arithmetic with queries, copies, other"
            " maps, caller modifications and faults; non-trivial: at least two grids checked, on a"
            " distinct execution")


class C09(ModelWorld):
    prop = "C09"
    mix = ("cells",)
    rule = C08.rule.replace("a tract's patch grid", "the cell grids of a tract's patches")

    def pick_spec(self, rng):
        if rng.random() < 0.25:
            s = scen.exotic(rng)
            if s["builder"] == "cells" or rng.random() < 0.1:
                return s
        return scen.gen_spec(rng, builder="cells" if rng.random() < 0.85 else "legacy", small=rng.random() < 0.5)


class C10(ModelWorld):
    prop = "C10"

    def pick_spec(self, rng):
        s = ModelWorld.pick_spec(self, rng)
        # base-class look-ups visit every tract
        return s if s["cls"] != "healpix" or s["cfg"]["log2NSide"] < 3 else scen.gen_spec(rng, "healpix")

    mix = ("array", "array", "find", "find", "list", "list", "region", "region", "closest", "all")

    def plan(self, i):
        rng = random.Random("%s/huge/%d/%d" % (self.prop, self.seed, i))
        if rng.random() > 0.02:
            return ModelWorld.plan(self, i)
        # a map of tens of thousands of tracts; what visits them all is left out
        spec = scen.huge(rng)
        evs = []
        for k in range(rng.randint(3, 6)):
            self.mix = rng.choice((("array",), ("array", "find", "list"), ("all", "closest", "array")))
            op = self.gen_check(rng, 0, spec, [rng.random(), 0.0, 0.999999])
            if op[0] == "array":
                op[5] = [rng.randrange(1 << 20), rng.choice((0, 20, 60))]
            evs.append({"id": k, "t": 0, "op": op})
        del self.mix
        return {"specs": [spec], "events": evs, "faults": [], "audit": [], "sched_seed": i,
                "strategy": {"kind": "none"}, "opcodes": False, "max_steps": 8_000_000}

    rule = C08.rule.replace("full checks of a tract's patch grid against integer arithmetic",
                            "look-ups by coordinate (scalar, array, tract, patch, region), each checked against"
                            " the others and against the grid,")


WORLDS = {"C08": C08, "C09": C09, "C10": C10}
