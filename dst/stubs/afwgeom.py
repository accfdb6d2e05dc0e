"""Stand-in for lsst.afw.geom: SkyWcs with FITS projections."""
import math

import numpy as np

from .geom import Angle, Point2D, SpherePoint, TWOPI, _seam, radians
from . import geom as _geom
from . import exceptions as _pexExc

_D = math.pi/180.0


def makeCdMatrix(scale, orientation=Angle(0.0), flipX=False):
    _seam("makeCdMatrix")
    o = orientation.asRadians()
    s = scale.asDegrees()
    m = 1.0 if flipX else -1.0
    return np.array([[math.cos(o)*s*m, math.sin(o)*s], [-math.sin(o)*s*m, math.cos(o)*s]])


# --- zenithal: R(theta) in degrees -------------------------------------
def _zen(code):
    if code == "TAN":
        def fwd(cz):      # cz: angular distance from the pole (rad)
            return math.nan if cz >= math.pi/2 else math.tan(cz)/_D

        def inv(r):
            return math.atan(r*_D)
    elif code == "STG":
        def fwd(cz):
            return math.nan if cz >= math.pi*(1 - 1e-13) else 2.0*math.tan(cz/2)/_D

        def inv(r):
            return 2.0*math.atan(r*_D/2)
    elif code == "SIN":
        def fwd(cz):
            return math.nan if cz > math.pi/2 else math.sin(cz)/_D

        def inv(r):
            v = r*_D
            return math.nan if v > 1 else math.asin(v)
    elif code == "ZEA":
        def fwd(cz):
            return 2.0*math.sin(cz/2)/_D

        def inv(r):
            v = r*_D/2
            return math.nan if v > 1 else 2.0*math.asin(v)
    elif code == "ARC":
        def fwd(cz):
            return cz/_D

        def inv(r):
            v = r*_D
            return math.nan if v > math.pi else v
    else:
        return None
    return fwd, inv


# --- cylindrical: native (phi, theta) rad -> (x, y) deg ------------------
def _cyl(code):
    if code == "CEA":
        def fwd(p, t):
            return p/_D, math.sin(t)/_D

        def inv(x, y):
            v = y*_D
            if abs(v) > 1 or abs(x) > 180*(1 + 1e-13):
                return math.nan, math.nan
            return x*_D, math.asin(v)
    elif code == "CAR":
        def fwd(p, t):
            return p/_D, t/_D

        def inv(x, y):
            if abs(y) > 90 or abs(x) > 180*(1 + 1e-13):
                return math.nan, math.nan
            return x*_D, y*_D
    elif code == "MER":
        def fwd(p, t):
            if abs(t) >= math.pi/2:
                return math.nan, math.nan
            return p/_D, math.log(math.tan(math.pi/4 + t/2))/_D

        def inv(x, y):
            if abs(x) > 180*(1 + 1e-13):
                return math.nan, math.nan
            return x*_D, 2*math.atan(math.exp(y*_D)) - math.pi/2
    else:
        return None
    return fwd, inv


class SkyWcs:
    """Immutable pixel <-> sky mapping (LSST zero-based crpix)."""
    __slots__ = ("_crpix", "_crval", "_cd", "_icd", "_proj", "_zen", "_cyl", "_tri")

    def __init__(self, crpix, crval, cd, proj):
        s = object.__setattr__
        s(self, "_crpix", (float(crpix[0]), float(crpix[1])))
        s(self, "_crval", (crval._lon, crval._lat))
        s(self, "_cd", tuple(float(v) for v in np.asarray(cd).ravel()))
        a, b, c, d = self._cd
        det = a*d - b*c
        if det == 0:
            raise _pexExc.RuntimeError("singular CD matrix")
        s(self, "_icd", (d/det, -b/det, -c/det, a/det))
        s(self, "_proj", proj)
        s(self, "_zen", _zen(proj))
        s(self, "_cyl", _cyl(proj))
        if self._zen is None and self._cyl is None:
            raise _pexExc.RuntimeError("unsupported projection %r" % (proj,))
        lon, lat = self._crval
        if self._zen is not None:
            # triad: north-pole direction of the native frame is crval
            sl, cl, sb, cb = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
            tri = ((cb*cl, cb*sl, sb), (-sl, cl, 0.0), (-sb*cl, -sb*sl, cb))
        else:
            # native reference point (0, 0) at crval; east/north there
            sl, cl, sb, cb = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
            tri = ((cb*cl, cb*sl, sb), (-sl, cl, 0.0), (-sb*cl, -sb*sl, cb))
        s(self, "_tri", tri)

    def __setattr__(self, n, v):
        raise AttributeError("SkyWcs is immutable")

    def __reduce__(self):
        return (_remakeWcs, (self._crpix, self._crval, self._cd, self._proj))

    def _skyToPix(self, lon, lat):
        if lon != lon or lat != lat:
            return math.nan, math.nan
        c = math.cos(lat)
        x, y, z = c*math.cos(lon), c*math.sin(lon), math.sin(lat)
        f, e, n = self._tri
        w = f[0]*x + f[1]*y + f[2]*z
        u = e[0]*x + e[1]*y
        v = n[0]*x + n[1]*y + n[2]*z
        if self._zen is not None:
            s = math.hypot(u, v)
            r = self._zen[0](math.atan2(s, w))
            if s == 0.0:
                px = py = (0.0 if r == r else math.nan)
                if w < 0 and r == r:
                    px = r
            else:
                px, py = r*u/s, r*v/s
        else:
            px, py = self._cyl[0](math.atan2(u, w), math.asin(max(-1.0, min(1.0, v))))
        ia, ib, ic, id_ = self._icd
        return ia*px + ib*py + self._crpix[0], ic*px + id_*py + self._crpix[1]

    def _pixToSky(self, x, y):
        dx, dy = x - self._crpix[0], y - self._crpix[1]
        a, b, c, d = self._cd
        px, py = a*dx + b*dy, c*dx + d*dy
        f, e, n = self._tri
        if self._zen is not None:
            r = math.hypot(px, py)
            t = self._zen[1](r)
            if t != t:
                return math.nan, math.nan
            if r == 0.0:
                return self._crval
            st = math.sin(t)
            w, u, v = math.cos(t), st*px/r, st*py/r
        else:
            p, t = self._cyl[1](px, py)
            if p != p:
                return math.nan, math.nan
            ct = math.cos(t)
            w, u, v = ct*math.cos(p), ct*math.sin(p), math.sin(t)
        X = w*f[0] + u*e[0] + v*n[0]
        Y = w*f[1] + u*e[1] + v*n[1]
        Z = w*f[2] + v*n[2]
        lon = math.atan2(Y, X)
        if lon < 0:
            lon += TWOPI
        return lon, math.atan2(Z, math.hypot(X, Y))

    def skyToPixel(self, sky):
        _seam("skyToPixel")
        if isinstance(sky, SpherePoint):
            return Point2D(*self._s2p(sky._lon, sky._lat))
        return [Point2D(*self._s2p(s._lon, s._lat)) for s in sky]

    def _s2p(self, lon, lat):
        if _geom._project is not None:
            r = _geom._project(self, lon, lat)
            if r is not None:
                return r
        return self._skyToPix(lon, lat)

    def pixelToSky(self, *args):
        _seam("pixelToSky")
        if len(args) == 2:
            return SpherePoint(*self._wrap(*self._pixToSky(args[0], args[1])))
        p = args[0]
        if isinstance(p, (Point2D, _geom.Point2I)):
            return SpherePoint(*self._wrap(*self._pixToSky(p.x, p.y)))
        return [SpherePoint(*self._wrap(*self._pixToSky(q.x, q.y))) for q in p]

    @staticmethod
    def _wrap(lon, lat):
        return Angle(lon), Angle(lat)

    def pixelToSkyArray(self, x, y, degrees=False):
        r = [self._pixToSky(a, b) for a, b in zip(np.atleast_1d(x), np.atleast_1d(y))]
        k = 1/_D if degrees else 1.0
        return np.array([v[0]*k for v in r]), np.array([v[1]*k for v in r])

    def skyToPixelArray(self, ra, dec, degrees=False):
        k = _D if degrees else 1.0
        _seam("skyToPixel")
        r = [self._s2p(a*k, b*k) for a, b in zip(np.atleast_1d(ra), np.atleast_1d(dec))]
        return np.array([v[0] for v in r]), np.array([v[1] for v in r])

    def copyAtShiftedPixelOrigin(self, shift):
        _seam("copyAtShiftedPixelOrigin")
        return SkyWcs((self._crpix[0] + shift[0], self._crpix[1] + shift[1]),
                      SpherePoint(Angle(self._crval[0]), Angle(self._crval[1])),
                      self._cd, self._proj)

    def getPixelOrigin(self):
        return Point2D(*self._crpix)

    def getSkyOrigin(self):
        return SpherePoint(Angle(self._crval[0]), Angle(self._crval[1]))

    def getCdMatrix(self):
        return np.array(self._cd).reshape(2, 2)

    def getPixelScale(self, pixel=None):
        a, b, c, d = self._cd
        return math.sqrt(abs(a*d - b*c))*_geom.degrees

    def getProjection(self):
        return self._proj

    def _key(self):
        return (self._crpix, self._crval, self._cd, self._proj)

    def __eq__(self, o):
        return self._key() == o._key() if isinstance(o, SkyWcs) else NotImplemented

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return "SkyWcs(crpix=%s, crval=%s, cd=%s, proj=%s)" % self._key()


def _remakeWcs(crpix, crval, cd, proj):
    return SkyWcs(crpix, SpherePoint(Angle(crval[0]), Angle(crval[1])), np.array(cd).reshape(2, 2), proj)


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    _seam("makeSkyWcs")
    if _geom._make is not None:
        _geom._make(crval.getLongitude().asRadians(), crval.getLatitude().asRadians())
    return SkyWcs(crpix, crval, cdMatrix, projection)


__all__ = ["makeCdMatrix", "makeSkyWcs", "SkyWcs"]
