"""Brings /repo's lsst.skymap up inside a controlled interpreter.

Everything that can make two executions differ is put behind a seam here,
before any repository code is imported:

* thread locks created by repository code become simulated locks (dst.sched);
* the compiled geometry libraries are replaced by the pure stand-ins of
  dst.stubs, whose entry points are fault/preemption seams;
* every line, call (and optionally instruction) of repository code is a
  preemption point, through sys.monitoring;
* warnings are silenced, BLAS is single threaded, bytecode is not written
  (so nothing is left in /repo).
"""
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
REPO_PY = os.path.join(REPO, "python") + os.sep

_done = False


def repo_functions():
    """All function objects whose code lives in the repository."""
    import gc
    import types
    seen = set()
    out = []

    def code(c):
        if c in seen or not c.co_filename.startswith(REPO_PY):
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                code(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            code(o.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return out


def cover(path):
    """Append every line of repository code run for the first time to PATH."""
    mon = sys.monitoring
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    mon.use_tool_id(4, "dst-cover")

    def line(code, number):
        os.write(fd, b"%s:%d\n" % (code.co_filename[len(REPO_PY):].encode(), number))
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    for code in repo_functions():
        mon.set_local_events(4, code, mon.events.LINE)


def boot():
    """Import the package under test; returns the lsst.skymap module."""
    global _done
    import warnings
    if not _done:
        warnings.simplefilter("ignore")
        from . import sched
        sched.install_locks(REPO_PY)
        for p in (REPO_PY.rstrip(os.sep),):
            if p not in sys.path:
                sys.path.insert(0, p)
        from . import stubs
        stubs.install()
        import lsst.skymap  # noqa: F401
        import lsst.skymap.packers  # noqa: F401  (brings lsst.daf.butler along)
        import lsst.skymap.ringsSkyMap, lsst.skymap.healpixSkyMap  # noqa: F401,E401
        warnings.simplefilter("ignore")
        m = sys.modules["lsst.skymap"]
        if not os.path.realpath(m.__file__).startswith(REPO_PY):
            raise RuntimeError("lsst.skymap came from %s, not %s" % (m.__file__, REPO_PY))
        sched.instrument(repo_functions())
        _done = True
        if os.environ.get("DST_COV"):
            cover(os.environ["DST_COV"])
    return sys.modules["lsst.skymap"]
