"""Turns answers of the package into plain comparable values."""
import math

import numpy as np


def fl(v):
    v = float(v)
    return v if math.isfinite(v) else str(v)


def sp(p):
    return ("sp", fl(p.getLongitude().asRadians()), fl(p.getLatitude().asRadians()))


def ang(a):
    return ("ang", fl(a.asRadians()))


def box(b):
    return ("box", b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight())


def pair(e):
    return (int(e[0]), int(e[1]))


def wcs(w):
    cd = np.asarray(w.getCdMatrix()).ravel()
    o, s = w.getPixelOrigin(), w.getSkyOrigin()
    return ("wcs", fl(o[0]), fl(o[1]), sp(s), tuple(fl(v) for v in cd), w.getProjection())


def region(r):
    n = type(r).__name__
    if n == "ConvexPolygon":
        return ("poly", tuple((fl(v.x()), fl(v.y()), fl(v.z())) for v in r.getVertices()))
    if n == "Box":
        lo, la = r.getLon(), r.getLat()
        return ("lonlatbox", fl(lo.getA().asRadians()), fl(lo.getB().asRadians()),
                fl(la.getA().asRadians()), fl(la.getB().asRadians()))
    return (n, repr(r))


def patch(p, deep=True):
    r = ["patch", pair(p.getIndex()), int(p.getSequentialIndex()), box(p.getInnerBBox()),
         box(p.getOuterBBox()), pair(p.getNumCells()), int(p.getCellBorder()),
         pair(p.getCellInnerDimensions())]
    if deep:
        r.append(wcs(p.getWcs()))
    return tuple(r)


def cell(c):
    return ("cell", pair(c.getIndex()), int(c.getSequentialIndex()), box(c.getInnerBBox()),
            box(c.getOuterBBox()), wcs(c.getWcs()))


def tract(t, deep=True):
    r = ["tract", type(t).__name__, int(t.getId()), box(t.getBBox()), pair(t.getNumPatches()),
         len(t), sp(t.getCtrCoord())]
    if deep:
        r += [tuple(sp(v) for v in t.getVertexList()), ang(t.getTractOverlap()), wcs(t.getWcs()),
              pair(t.getPatchInnerDimensions()), int(t.getPatchBorder()),
              region(t.getInnerSkyRegion())]
    return tuple(r)


def plist(ps):
    return tuple(patch(p, False) for p in ps)


def exc(e):
    return ("raised", type(e).__name__)
