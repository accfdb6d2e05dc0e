"""Pure-Python stand-ins for the compiled Rubin packages that cannot be had
offline (lsst.geom, lsst.afw.geom, lsst.pex.exceptions), plus the scons
generated lsst.skymap.version.  ``install()`` puts them in sys.modules; the
package under test is always /repo's own code.

Numbers follow the documented behaviour of the C++ packages (half-open boxes,
floor(x+0.5) pixel rounding, FITS zenithal/cylindrical projections) and are
validated by running /repo's own geometry tests against them
(see tools/run_repo_tests.py).
"""
import sys
import types


def install():
    if "lsst.geom" in sys.modules:
        return
    import lsst.pex  # noqa: F401  (namespace package)
    from . import geom, exceptions, afwgeom

    import lsst
    sys.modules["lsst.geom"] = geom
    lsst.geom = geom
    sys.modules["lsst.pex.exceptions"] = exceptions
    lsst.pex.exceptions = exceptions
    afw = types.ModuleType("lsst.afw")
    afw.__path__ = []
    afw.geom = afwgeom
    lsst.afw = afw
    sys.modules["lsst.afw"] = afw
    sys.modules["lsst.afw.geom"] = afwgeom
    ver = types.ModuleType("lsst.skymap.version")
    ver.__all__ = ("__version__",)
    ver.__version__ = "dst"
    sys.modules["lsst.skymap.version"] = ver
