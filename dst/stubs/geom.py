"""Stand-in for lsst.geom."""
import math

import lsst.sphgeom as _sg

from . import exceptions as _pexExc

_INT_MIN = -2**31
_INT_MAX = 2**31 - 1

# Seam: the simulator sets this to a callable(name) that may raise (allocation
# failure, interrupted call ...).  None outside a simulation.
_fault = None
# Seam: callable(wcs, lon, lat) -> None, or a replacement (x, y); may raise.
# The simulator uses it to make given coordinates unprojectable.
_project = None
_make = None


def _seam(name):
    if _fault is not None:
        _fault(name)


class AngleUnit:
    __slots__ = ("_v", "_n")

    def __init__(self, v, n):
        self._v = v
        self._n = n

    def __rmul__(self, other):
        return Angle(float(other)*self._v)

    def __mul__(self, other):
        return Angle(float(other)*self._v)

    def __eq__(self, other):
        return isinstance(other, AngleUnit) and self._v == other._v

    def __hash__(self):
        return hash(self._v)

    def __repr__(self):
        return self._n

    def __reduce__(self):
        return (AngleUnit, (self._v, self._n))

    # numpy must not broadcast over us
    __array_ufunc__ = None


radians = AngleUnit(1.0, "radians")
degrees = AngleUnit(math.pi/180.0, "degrees")
hours = AngleUnit(math.pi*15.0/180.0, "hours")
arcminutes = AngleUnit(math.pi/60/180.0, "arcminutes")
arcseconds = AngleUnit(math.pi/180.0/3600, "arcseconds")
milliarcseconds = AngleUnit(math.pi/(180.0*3600*1000), "milliarcseconds")

PI = math.pi
TWOPI = math.pi*2.0
HALFPI = math.pi/2


class Angle:
    __slots__ = ("_r",)
    __array_ufunc__ = None

    def __init__(self, val=0.0, units=radians):
        if isinstance(val, (Angle, _sg.Angle)):
            object.__setattr__(self, "_r", val.asRadians())
        else:
            object.__setattr__(self, "_r", float(val)*units._v)

    def __setattr__(self, name, value):
        raise AttributeError("Angle is immutable")

    def __reduce__(self):
        return (Angle, (self._r,))

    def asRadians(self):
        return self._r

    def asDegrees(self):
        return self._r/degrees._v

    def asHours(self):
        return self._r/hours._v

    def asArcminutes(self):
        return self._r/arcminutes._v

    def asArcseconds(self):
        return self._r/arcseconds._v

    def asAngularUnits(self, units):
        return self._r/units._v

    def __float__(self):
        return self._r

    def __abs__(self):
        return Angle(abs(self._r))

    def __neg__(self):
        return Angle(-self._r)

    def __add__(self, o):
        return Angle(self._r + o._r) if isinstance(o, Angle) else NotImplemented

    def __sub__(self, o):
        return Angle(self._r - o._r) if isinstance(o, Angle) else NotImplemented

    def __mul__(self, o):
        return Angle(self._r*float(o)) if not isinstance(o, Angle) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Angle):
            return NotImplemented
        return Angle(self._r/float(o))

    def _cmp(self, o):
        if isinstance(o, Angle):
            return o._r
        return float(o)

    def __eq__(self, o):
        try:
            return self._r == self._cmp(o)
        except (TypeError, ValueError):
            return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._r < self._cmp(o)

    def __le__(self, o):
        return self._r <= self._cmp(o)

    def __gt__(self, o):
        return self._r > self._cmp(o)

    def __ge__(self, o):
        return self._r >= self._cmp(o)

    def __hash__(self):
        return hash(self._r)

    def __repr__(self):
        return "Angle(%r, degrees)" % (self.asDegrees(),)

    __str__ = __repr__

    def wrap(self):
        r = self._r
        if 0.0 <= r < TWOPI:
            return Angle(r)
        w = math.fmod(r, TWOPI) if math.isfinite(r) else math.nan
        if w < 0.0:
            w += TWOPI
        if w >= TWOPI:
            w = 0.0
        return Angle(w)

    def wrapCtr(self):
        w = math.fmod(self._r, TWOPI)
        if w < -math.pi:
            w += TWOPI
        elif w >= math.pi:
            w -= TWOPI
        return Angle(w)

    def separation(self, other):
        return (self - other).wrapCtr()


def _mkTuple(kind, dim, isInt, name):
    conv = int if isInt else float

    class T:
        __slots__ = ("_x", "_y")

        def __init__(self, *args):
            if len(args) == 0:
                self._x = self._y = conv(0)
                return
            if len(args) == 1:
                a = args[0]
                if isinstance(a, (int, float)):
                    x = y = a
                else:
                    x, y = a[0], a[1]
                    src_int = isinstance(a, (Point2I, Extent2I))
                    if isInt and not src_int and isinstance(a, (Point2D, Extent2D)):
                        x, y = _round(x), _round(y)
            elif len(args) == 2:
                x, y = args
            else:
                raise TypeError("%s: bad arguments %r" % (name, args))
            if isInt:
                self._x = _asInt(x)
                self._y = _asInt(y)
            else:
                self._x = float(x)
                self._y = float(y)

        def getX(self):
            return self._x

        def getY(self):
            return self._y

        def setX(self, v):
            self._x = conv(v)

        def setY(self, v):
            self._y = conv(v)

        x = property(getX, setX)
        y = property(getY, setY)

        def __getitem__(self, i):
            if i == 0 or i == -2:
                return self._x
            if i == 1 or i == -1:
                return self._y
            raise IndexError(i)

        def __setitem__(self, i, v):
            if isInt:
                v = _asInt(v)
            else:
                v = float(v)
            if i == 0 or i == -2:
                self._x = v
            elif i == 1 or i == -1:
                self._y = v
            else:
                raise IndexError(i)

        def __len__(self):
            return 2

        def __iter__(self):
            return iter((self._x, self._y))

        def __eq__(self, o):
            if not isinstance(o, _CoordBase):
                return NotImplemented
            return self._x == o._x and self._y == o._y

        def __ne__(self, o):
            r = self.__eq__(o)
            return r if r is NotImplemented else not r

        def __hash__(self):
            return hash((self._x, self._y))

        def __neg__(self):
            return type(self)(-self._x, -self._y)

        # the C++ classes are mutable, in-place operators included
        def __iadd__(self, o):
            self[0], self[1] = self._x + o._x, self._y + o._y
            return self

        def __isub__(self, o):
            self[0], self[1] = self._x - o._x, self._y - o._y
            return self

        def __imul__(self, o):
            if kind == "P":
                return NotImplemented
            self[0], self[1] = self._x*o, self._y*o
            return self

        def __ifloordiv__(self, o):
            if kind == "P" or not isInt:
                return NotImplemented
            self[0], self[1] = self._x//o, self._y//o
            return self

        def __reduce__(self):
            return (type(self), (self._x, self._y))

        def __repr__(self):
            return "%s(%r, %r)" % (name, self._x, self._y)

        def __str__(self):
            return "(%s, %s)" % (self._x, self._y)

    return T


class _CoordBase:
    __slots__ = ()


def _asInt(v):
    if isinstance(v, float):
        raise TypeError("incompatible argument: %r is not an int" % (v,))
    return v.__index__()


def _round(v):
    # C++: static_cast<int>(std::floor(v + 0.5)); out of range gives INT_MIN
    if v != v or v in (math.inf, -math.inf):
        return _INT_MIN
    r = math.floor(v + 0.5)
    if r < _INT_MIN or r > _INT_MAX:
        return _INT_MIN
    return r


class Extent2I(_mkTuple("E", 2, True, "Extent2I"), _CoordBase):
    __slots__ = ()

    def __add__(self, o):
        return (Extent2D if isinstance(o, Extent2D) else Extent2I)(self._x + o._x, self._y + o._y)

    def __sub__(self, o):
        return (Extent2D if isinstance(o, Extent2D) else Extent2I)(self._x - o._x, self._y - o._y)

    def __mul__(self, o):
        return (Extent2I if isinstance(o, int) else Extent2D)(self._x*o, self._y*o)

    __rmul__ = __mul__


class Extent2D(_mkTuple("E", 2, False, "Extent2D"), _CoordBase):
    __slots__ = ()

    def __add__(self, o):
        return Extent2D(self._x + o._x, self._y + o._y)

    def __sub__(self, o):
        return Extent2D(self._x - o._x, self._y - o._y)

    def __mul__(self, o):
        return Extent2D(self._x*o, self._y*o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Extent2D(self._x/o, self._y/o)


class Point2I(_mkTuple("P", 2, True, "Point2I"), _CoordBase):
    __slots__ = ()

    def __add__(self, o):
        return (Point2D if isinstance(o, Extent2D) else Point2I)(self._x + o._x, self._y + o._y)

    def __sub__(self, o):
        x, y = self._x - o._x, self._y - o._y
        if isinstance(o, Point2I):
            return Extent2I(x, y)
        if isinstance(o, Point2D):
            return Extent2D(x, y)
        return (Point2D if isinstance(o, Extent2D) else Point2I)(x, y)


class Point2D(_mkTuple("P", 2, False, "Point2D"), _CoordBase):
    __slots__ = ()

    def __add__(self, o):
        return Point2D(self._x + o._x, self._y + o._y)

    def __sub__(self, o):
        x, y = self._x - o._x, self._y - o._y
        if isinstance(o, (Point2I, Point2D)):
            return Extent2D(x, y)
        return Point2D(x, y)


Point2 = Point2D
Extent2 = Extent2D
PointI = Point2I
PointD = Point2D
ExtentI = Extent2I
ExtentD = Extent2D


class Box2I:
    """Integer box; empty boxes have dimensions (0, 0)."""
    __slots__ = ("_x0", "_y0", "_w", "_h")

    EXPAND = "EXPAND"
    SHRINK = "SHRINK"

    def __init__(self, *args, **kwds):
        _seam("Box2I")
        edge = kwds.pop("edgeHandling", Box2I.EXPAND)
        kwds.pop("invert", None)
        if kwds:
            args = args + tuple(kwds[k] for k in ("minimum", "maximum", "corner", "dimensions", "other")
                                if k in kwds)
        self._x0 = self._y0 = self._w = self._h = 0
        if not args:
            return
        a = args[0]
        if len(args) >= 2 and isinstance(args[1], Extent2I):
            self._set(a[0], a[1], args[1][0], args[1][1])
        elif len(args) >= 2 and isinstance(args[1], Point2I):
            b = args[1]
            self._set(a[0], a[1], b[0] - a[0] + 1, b[1] - a[1] + 1)
        elif isinstance(a, Box2I):
            self._x0, self._y0, self._w, self._h = a._x0, a._y0, a._w, a._h
        elif isinstance(a, Box2D):
            if len(args) > 1:
                edge = args[1]
            if a.isEmpty():
                return
            for v in (a._x0, a._y0, a._x1, a._y1):
                if not math.isfinite(v):
                    raise _pexExc.InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
            if edge == Box2I.EXPAND:
                x0 = math.floor(a._x0 + 0.5)
                y0 = math.floor(a._y0 + 0.5)
                x1 = math.ceil(a._x1 - 0.5)
                y1 = math.ceil(a._y1 - 0.5)
            else:
                x0 = math.ceil(a._x0 + 0.5)
                y0 = math.ceil(a._y0 + 0.5)
                x1 = math.floor(a._x1 - 0.5)
                y1 = math.floor(a._y1 - 0.5)
            for v in (x0, y0, x1, y1):
                if not _INT_MIN <= v <= _INT_MAX:
                    raise _pexExc.OverflowError("Box2I: box too big")
            self._set(x0, y0, x1 - x0 + 1, y1 - y0 + 1)
        else:
            raise TypeError("Box2I: bad arguments %r" % (args,))

    def _set(self, x0, y0, w, h):
        if w <= 0 or h <= 0:
            x0 = y0 = w = h = 0
        for v in (x0, y0, x0 + w - 1 if w else 0, y0 + h - 1 if h else 0):
            if not _INT_MIN <= v <= _INT_MAX:
                raise _pexExc.OverflowError("Box2I: box too big")
        self._x0, self._y0, self._w, self._h = x0, y0, w, h

    def __reduce__(self):
        return (Box2I, (Point2I(self._x0, self._y0), Extent2I(self._w, self._h)))

    def isEmpty(self):
        return self._w == 0 and self._h == 0

    empty = property(isEmpty)

    def getMin(self):
        return Point2I(self._x0, self._y0)

    def getMax(self):
        return Point2I(self._x0 + self._w - 1, self._y0 + self._h - 1)

    getBegin = getMin

    def getEnd(self):
        return Point2I(self._x0 + self._w, self._y0 + self._h)

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMaxX(self):
        return self._x0 + self._w - 1

    def getMaxY(self):
        return self._y0 + self._h - 1

    getBeginX = getMinX
    getBeginY = getMinY

    def getEndX(self):
        return self._x0 + self._w

    def getEndY(self):
        return self._y0 + self._h

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getDimensions(self):
        return Extent2I(self._w, self._h)

    def getArea(self):
        return self._w*self._h

    width = property(getWidth)
    height = property(getHeight)
    beginX = property(getBeginX)
    beginY = property(getBeginY)
    endX = property(getEndX)
    endY = property(getEndY)
    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    begin = property(getBegin)
    end = property(getEnd)
    dimensions = property(getDimensions)
    area = property(getArea)

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCorners(self):
        a, b = self.getMin(), self.getMax()
        return [a, Point2I(b.x, a.y), b, Point2I(a.x, b.y)]

    def contains(self, o, *rest):
        if rest:
            o = Point2I(o, *rest)
        if isinstance(o, Box2I):
            if o.isEmpty():
                return True
            return (self._x0 <= o._x0 and self._y0 <= o._y0
                    and o._x0 + o._w <= self._x0 + self._w and o._y0 + o._h <= self._y0 + self._h)
        return self._x0 <= o._x < self._x0 + self._w and self._y0 <= o._y < self._y0 + self._h

    __contains__ = contains

    def overlaps(self, o):
        if self.isEmpty() or o.isEmpty():
            return False
        return (self._x0 < o._x0 + o._w and o._x0 < self._x0 + self._w
                and self._y0 < o._y0 + o._h and o._y0 < self._y0 + self._h)

    intersects = overlaps

    def grow(self, amount):
        if self.isEmpty():
            return
        dx, dy = (amount, amount) if isinstance(amount, int) else (amount[0], amount[1])
        self._set(self._x0 - dx, self._y0 - dy, self._w + 2*dx, self._h + 2*dy)

    def dilatedBy(self, amount):
        r = Box2I(self)
        r.grow(amount)
        return r

    def erodedBy(self, amount):
        r = Box2I(self)
        r.grow(-amount if isinstance(amount, int) else Extent2I(-amount[0], -amount[1]))
        return r

    def shift(self, off):
        if not self.isEmpty():
            self._x0 += off[0]
            self._y0 += off[1]

    def shiftedBy(self, off):
        r = Box2I(self)
        r.shift(off)
        return r

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._set(0, 0, 0, 0)
            return
        x0 = max(self._x0, o._x0)
        y0 = max(self._y0, o._y0)
        x1 = min(self._x0 + self._w, o._x0 + o._w)
        y1 = min(self._y0 + self._h, o._y0 + o._h)
        self._set(x0, y0, x1 - x0, y1 - y0)

    def clippedTo(self, o):
        r = Box2I(self)
        r.clip(o)
        return r

    def include(self, o):
        if isinstance(o, Box2I):
            if o.isEmpty():
                return
            self.include(o.getMin())
            self.include(o.getMax())
            return
        if self.isEmpty():
            self._set(o[0], o[1], 1, 1)
            return
        x0 = min(self._x0, o[0])
        y0 = min(self._y0, o[1])
        x1 = max(self._x0 + self._w, o[0] + 1)
        y1 = max(self._y0 + self._h, o[1] + 1)
        self._set(x0, y0, x1 - x0, y1 - y0)

    def expandedTo(self, o):
        r = Box2I(self)
        r.include(o)
        return r

    def __eq__(self, o):
        if not isinstance(o, Box2I):
            return NotImplemented
        return (self._x0, self._y0, self._w, self._h) == (o._x0, o._y0, o._w, o._h)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._x0, self._y0, self._w, self._h))

    def __repr__(self):
        return "Box2I(corner=Point2I(%d, %d), dimensions=Extent2I(%d, %d))" % (
            self._x0, self._y0, self._w, self._h)

    __str__ = __repr__


class Box2D:
    """Floating-point half-open box; empty boxes are NaN."""
    __slots__ = ("_x0", "_y0", "_x1", "_y1")
    EPSILON = 2*2.0**-52

    def __init__(self, *args):
        self._x0 = self._y0 = self._x1 = self._y1 = math.nan
        if not args:
            return
        a = args[0]
        if len(args) == 2:
            b = args[1]
            if isinstance(b, (Extent2D, Extent2I)):
                self._set(a[0], a[1], a[0] + b[0], a[1] + b[1])
            else:
                self._set(a[0], a[1], b[0], b[1])
        elif isinstance(a, Box2D):
            self._x0, self._y0, self._x1, self._y1 = a._x0, a._y0, a._x1, a._y1
        elif isinstance(a, Box2I):
            if not a.isEmpty():
                self._x0 = a._x0 - 0.5
                self._y0 = a._y0 - 0.5
                self._x1 = a._x0 + a._w - 0.5
                self._y1 = a._y0 + a._h - 0.5
        else:
            raise TypeError("Box2D: bad arguments %r" % (args,))

    def _set(self, x0, y0, x1, y1):
        if x0 >= x1 or y0 >= y1 or x0 != x0 or y0 != y0 or x1 != x1 or y1 != y1:
            x0 = y0 = x1 = y1 = math.nan
        self._x0, self._y0, self._x1, self._y1 = float(x0), float(y0), float(x1), float(y1)

    def __reduce__(self):
        return (_mkBox2D, (self._x0, self._y0, self._x1, self._y1))

    def isEmpty(self):
        return self._x0 != self._x0

    empty = property(isEmpty)

    def getMin(self):
        return Point2D(self._x0, self._y0)

    def getMax(self):
        return Point2D(self._x1, self._y1)

    getBegin = getMin
    getEnd = getMax

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMaxX(self):
        return self._x1

    def getMaxY(self):
        return self._y1

    getBeginX = getMinX
    getBeginY = getMinY
    getEndX = getMaxX
    getEndY = getMaxY

    def getWidth(self):
        return 0.0 if self.isEmpty() else self._x1 - self._x0

    def getHeight(self):
        return 0.0 if self.isEmpty() else self._y1 - self._y0

    def getDimensions(self):
        return Extent2D(self.getWidth(), self.getHeight())

    def getArea(self):
        return self.getWidth()*self.getHeight()

    def getCenter(self):
        return Point2D((self._x0 + self._x1)*0.5, (self._y0 + self._y1)*0.5)

    def getCenterX(self):
        return (self._x0 + self._x1)*0.5

    def getCenterY(self):
        return (self._y0 + self._y1)*0.5

    width = property(getWidth)
    height = property(getHeight)
    beginX = minX = property(getMinX)
    beginY = minY = property(getMinY)
    endX = maxX = property(getMaxX)
    endY = maxY = property(getMaxY)
    begin = property(getMin)
    end = property(getMax)
    dimensions = property(getDimensions)
    center = property(getCenter)

    def getCorners(self):
        return [Point2D(self._x0, self._y0), Point2D(self._x1, self._y0),
                Point2D(self._x1, self._y1), Point2D(self._x0, self._y1)]

    @staticmethod
    def _tweakMax(v):
        if v < 0.0:
            return v*(1.0 - Box2D.EPSILON)
        return v*(1.0 + Box2D.EPSILON) if v > 0.0 else (Box2D.EPSILON if v == 0.0 else v)

    def include(self, o):
        if isinstance(o, Box2D):
            if o.isEmpty():
                return
            if self.isEmpty():
                self._x0, self._y0, self._x1, self._y1 = o._x0, o._y0, o._x1, o._y1
                return
            self._set(min(self._x0, o._x0), min(self._y0, o._y0), max(self._x1, o._x1), max(self._y1, o._y1))
            return
        x, y = o[0], o[1]
        if self.isEmpty():
            self._x0, self._y0 = x, y
            self._x1 = self._tweakMax(x)
            self._y1 = self._tweakMax(y)
            return
        if x < self._x0:
            self._x0 = x
        elif x >= self._x1:
            self._x1 = self._tweakMax(x)
        if y < self._y0:
            self._y0 = y
        elif y >= self._y1:
            self._y1 = self._tweakMax(y)

    def contains(self, o):
        if isinstance(o, Box2D):
            if o.isEmpty():
                return True
            return (self._x0 <= o._x0 and self._y0 <= o._y0 and o._x1 <= self._x1 and o._y1 <= self._y1)
        return self._x0 <= o[0] < self._x1 and self._y0 <= o[1] < self._y1

    __contains__ = contains

    def overlaps(self, o):
        return (self._x0 < o._x1 and o._x0 < self._x1 and self._y0 < o._y1 and o._y0 < self._y1)

    intersects = overlaps

    def grow(self, amount):
        if self.isEmpty():
            return
        dx, dy = (amount, amount) if isinstance(amount, (int, float)) else (amount[0], amount[1])
        self._set(self._x0 - dx, self._y0 - dy, self._x1 + dx, self._y1 + dy)

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._set(0, 0, 0, 0)
            return
        self._set(max(self._x0, o._x0), max(self._y0, o._y0), min(self._x1, o._x1), min(self._y1, o._y1))

    def shift(self, off):
        self._x0 += off[0]
        self._x1 += off[0]
        self._y0 += off[1]
        self._y1 += off[1]

    def __eq__(self, o):
        if not isinstance(o, Box2D):
            return NotImplemented
        if self.isEmpty() and o.isEmpty():
            return True
        return (self._x0, self._y0, self._x1, self._y1) == (o._x0, o._y0, o._x1, o._y1)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return "Box2D(minimum=Point2D(%r, %r), maximum=Point2D(%r, %r))" % (
            self._x0, self._y0, self._x1, self._y1)

    __str__ = __repr__


def _mkBox2D(x0, y0, x1, y1):
    b = Box2D()
    b._x0, b._y0, b._x1, b._y1 = x0, y0, x1, y1
    return b


BoxI = Box2I
BoxD = Box2D


class SpherePoint:
    """ICRS point; immutable."""
    __slots__ = ("_lon", "_lat")

    def __init__(self, *args, **kwds):
        _seam("SpherePoint")
        if kwds:
            args = args + tuple(kwds[k] for k in ("longitude", "latitude", "units", "vector", "other")
                                if k in kwds)
        if not args:
            lon = lat = math.nan
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, SpherePoint):
                lon, lat = a._lon, a._lat
            elif isinstance(a, _sg.LonLat):
                lon, lat = a.getLon().asRadians(), a.getLat().asRadians()
            elif isinstance(a, (_sg.Vector3d, _sg.UnitVector3d)):
                lon, lat = _vecToLonLat(a.x(), a.y(), a.z())
            else:
                raise TypeError("SpherePoint: bad argument %r" % (a,))
        elif len(args) == 2:
            lon, lat = args
            if not isinstance(lon, Angle) or not isinstance(lat, Angle):
                raise TypeError("SpherePoint: bad arguments %r" % (args,))
            lon, lat = lon._r, lat._r
        else:
            u = args[2]._v
            lon, lat = float(args[0])*u, float(args[1])*u
        if lat > HALFPI or lat < -HALFPI:
            # the C++ class tolerates nothing beyond the poles
            raise _pexExc.InvalidParameterError("Angle %r is not a valid latitude." % (lat,))
        object.__setattr__(self, "_lon", Angle(lon).wrap()._r if math.isfinite(lon) else math.nan)
        object.__setattr__(self, "_lat", lat)

    def __setattr__(self, name, value):
        raise AttributeError("SpherePoint is immutable")

    def __reduce__(self):
        return (SpherePoint, (Angle(self._lon), Angle(self._lat)))

    def getLongitude(self):
        return Angle(self._lon)

    def getLatitude(self):
        return Angle(self._lat)

    getRa = getLongitude
    getDec = getLatitude

    def getPosition(self, units):
        return Point2D(self._lon/units._v, self._lat/units._v)

    def __getitem__(self, i):
        if i in (0, -2):
            return Angle(self._lon)
        if i in (1, -1):
            return Angle(self._lat)
        raise IndexError(i)

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((Angle(self._lon), Angle(self._lat)))

    def _xyz(self):
        c = math.cos(self._lat)
        return (c*math.cos(self._lon), c*math.sin(self._lon), math.sin(self._lat))

    def getVector(self):
        return _sg.UnitVector3d(*self._xyz())

    def atPole(self):
        return abs(self._lat) >= HALFPI

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def separation(self, o):
        # haversine, as the C++ class
        dlon = self._lon - o._lon
        dlat = self._lat - o._lat
        s = math.sin(dlat/2)**2 + math.cos(self._lat)*math.cos(o._lat)*math.sin(dlon/2)**2
        return Angle(2.0*math.asin(math.sqrt(min(1.0, s))) if s == s else math.nan)

    def bearingTo(self, o):
        # east = 0, north = 90 deg
        dlon = o._lon - self._lon
        s, c = math.sin(dlon), math.cos(dlon)
        y = math.cos(self._lat)*math.sin(o._lat) - math.sin(self._lat)*math.cos(o._lat)*c
        x = math.cos(o._lat)*s
        return Angle(math.atan2(y, x)).wrap()

    def offset(self, bearing, amount):
        b, d = bearing._r, amount._r
        # unit vectors east and north at this point
        sl, cl = math.sin(self._lon), math.cos(self._lon)
        sb, cb = math.sin(self._lat), math.cos(self._lat)
        ce, cn = math.cos(b), math.sin(b)
        ex, ey = -sl, cl
        nx, ny, nz = -sb*cl, -sb*sl, cb
        tx, ty, tz = ce*ex + cn*nx, ce*ey + cn*ny, cn*nz
        px, py, pz = cb*cl, cb*sl, sb
        cd, sd = math.cos(d), math.sin(d)
        lon, lat = _vecToLonLat(cd*px + sd*tx, cd*py + sd*ty, cd*pz + sd*tz)
        return SpherePoint(Angle(lon), Angle(lat))

    def rotated(self, axis, amount):
        v = self.getVector().rotatedAround(axis.getVector(), _sg.Angle(amount._r))
        return SpherePoint(v)

    def __eq__(self, o):
        if not isinstance(o, SpherePoint):
            return NotImplemented
        return self._lon == o._lon and self._lat == o._lat

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __repr__(self):
        return "SpherePoint(%r, %r, degrees)" % (self._lon/degrees._v, self._lat/degrees._v)

    def __str__(self):
        return "(%.10f, %+.10f)" % (self._lon/degrees._v, self._lat/degrees._v)


def _vecToLonLat(x, y, z):
    if x == 0.0 and y == 0.0:
        if z == 0.0:
            raise _pexExc.InvalidParameterError("Vector is zero")
        return 0.0, math.copysign(HALFPI, z)
    lon = math.atan2(y, x)
    if lon < 0.0:
        lon += TWOPI
    return lon, math.atan2(z, math.hypot(x, y))


def averageSpherePoint(coords):
    x = y = z = 0.0
    for c in coords:
        a, b, d = c._xyz()
        x += a
        y += b
        z += d
    return SpherePoint(_sg.Vector3d(x, y, z))
