"""Helpers for demonstrations: sky maps on pure-Python geometry stand-ins."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
if not os.path.realpath(os.getcwd()) + "/python" in [os.path.realpath(p) for p in sys.path]:
    sys.path.insert(0, os.path.join(os.getcwd(), "python"))
import stubs  # noqa: E402

stubs.install()
import lsst.skymap  # noqa: E402,F401
import lsst.skymap.packers  # noqa: E402,F401
import lsst.geom as geom  # noqa: E402,F401
from lsst.skymap.discreteSkyMap import DiscreteSkyMap  # noqa: E402,F401
from lsst.skymap.dodecaSkyMap import DodecaSkyMap  # noqa: E402,F401
from lsst.skymap.equatSkyMap import EquatSkyMap  # noqa: E402,F401
from lsst.skymap.ringsSkyMap import RingsSkyMap  # noqa: E402,F401
from lsst.skymap.healpixSkyMap import HealpixSkyMap  # noqa: E402,F401

assert lsst.skymap.__file__.startswith(os.path.realpath(os.getcwd())), lsst.skymap.__file__


def config(cls, cells=None, inner=(200, 200), border=20, **kw):
    c = cls.ConfigClass()
    c.pixelScale = kw.pop("pixelScale", 200.0)
    c.tractOverlap = kw.pop("tractOverlap", 1.0)
    c.projection = kw.pop("projection", "TAN")
    if cells:
        c.tractBuilder = "cells"
        b = c.tractBuilder["cells"]
        for k, v in cells.items():
            setattr(b, k, v)
    else:
        c.tractBuilder = "legacy"
        c.patchInnerDimensions = inner
        c.patchBorder = border
    for k, v in kw.items():
        setattr(c, k, v)
    return c


CELLS = dict(cellInnerDimensions=(40, 40), cellBorder=4, numCellsPerPatchInner=5, numCellsInPatchBorder=1)


def rings(version=1, **kw):
    kw.setdefault("numRings", 5)
    return RingsSkyMap(config(RingsSkyMap, **kw), version=version)


def dodeca(**kw):
    return DodecaSkyMap(config(DodecaSkyMap, **kw))


def equat(**kw):
    kw.setdefault("decRange", (-1.25, 1.25))
    kw.setdefault("numTracts", 12)
    kw.setdefault("projection", "CEA")
    return EquatSkyMap(config(EquatSkyMap, **kw))


def healpix(**kw):
    return HealpixSkyMap(config(HealpixSkyMap, **kw))


def discrete(**kw):
    kw.setdefault("raList", [10.0, 200.0, 210.0])
    kw.setdefault("decList", [0.0, -30.0, 45.0])
    kw.setdefault("radiusList", [2.0, 3.0, 4.0])
    return DiscreteSkyMap(config(DiscreteSkyMap, **kw))


def sph(ra, dec):
    return geom.SpherePoint(ra, dec, geom.degrees)


def box(b):
    return (b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight())


def fail(msg):
    print("BROKEN: " + msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def new_repo(tmp, name="repo"):
    """A new data repository in tmp."""
    from lsst.daf.butler import Butler, DimensionConfig
    d = os.path.join(tmp, name)
    dims = DimensionConfig()
    dims["skypix", "common"] = "htm2"
    dims["namespace"] = "demo"
    Butler.makeRepo(d, dimensionConfig=dims)
    return d


def open_repo(d):
    from lsst.daf.butler import Butler
    return Butler.from_config(d, writeable=True)


def rows(d):
    """(skymap rows, tract rows, patch rows, stored maps) straight from the database."""
    import sqlite3
    c = sqlite3.connect(os.path.join(d, "gen3.sqlite3"))
    try:
        def n(sql):
            try:
                return c.execute(sql).fetchone()[0]
            except sqlite3.OperationalError:
                return 0
        return tuple(n("SELECT COUNT(*) FROM " + t) for t in ("skymap", "tract", "patch", "dataset"))
    finally:
        c.close()
