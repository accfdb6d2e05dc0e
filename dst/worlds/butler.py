"""Registration in a data repository (C12, C13, C14, C16).

Clients are separate processes running the real lsst.daf.butler on a real
SQLite file and a real file store in scratch space.  Every SQL statement,
commit, rollback, connection and file operation of a registration is a seam:
the client stops there, and the coordinator decides which client goes on, and
whether the operation fails, is cut short, or the client dies on the spot.
Waiting for the database lock is simulated.  Failures inside the registration
code itself (memory, interruption, geometry library, death) are injected at
its calls."""
import base64
import hashlib
import json
import os
import pickle
import random
import shutil
import sqlite3
import time

from .. import core, forks, node, scen, universe
from . import threads as T
from .cluster import ClusterWorld

# -- client side -----------------------------------------------------------------
PRE = {}          # slot path -> client opened by the zygote


class Seam:
    active = False
    sock = None
    atomic = 0       # inside a butler call taken as one step


def hit(kind, what):
    if not Seam.active or (Seam.atomic and kind != "blocked"):
        return None
    try:
        node.send(Seam.sock, ("seam", kind, what))
        return node.recv(Seam.sock)
    except (EOFError, OSError):
        os._exit(1)     # the coordinator is gone


SQL_ERRORS = {"io": "disk I/O error", "full": "database or disk is full", "busy": "database is locked",
              "ro": "attempt to write a readonly database", "corrupt": "database disk image is malformed"}


def strike(kind):
    if kind in SQL_ERRORS:
        raise sqlite3.OperationalError(SQL_ERRORS[kind])
    if kind == "memory":
        raise MemoryError("simulated")
    if kind == "interrupt":
        raise KeyboardInterrupt("simulated")
    if kind == "eio":
        raise OSError(5, "Input/output error")
    if kind == "eacces":
        raise PermissionError(13, "Permission denied")
    if kind in ("enospc", "torn"):
        raise OSError(28, "No space left on device")
    raise RuntimeError("unknown fault " + str(kind))


def verb(sql):
    w = sql.split()
    v = w[0].upper()
    if v == "INSERT":
        return v + " " + w[2]
    if v == "BEGIN":
        return "BEGIN"
    return v


waited = [0]


def wait_or_raise(e, what):
    """Wait for the database lock: until the coordinator says so, or (while the
    clients are being prepared) for real."""
    if "locked" not in str(e):
        raise e
    if Seam.active:
        if hit("blocked", what) == "timeout":
            raise e
    else:
        waited[0] += 1
        if waited[0] > 2000:
            raise e
        time.sleep(0.01)


class Cursor(sqlite3.Cursor):
    def _go(self, f, sql, args):
        if sql.startswith("PRAGMA"):
            # waiting for the lock is simulated: no waiting in here
            if "busy_timeout" in sql:
                return self
            return f(sql, *args)
        k = hit("sql", verb(sql))
        if k:
            strike(k)
        while True:
            try:
                return f(sql, *args)
            except sqlite3.OperationalError as e:
                wait_or_raise(e, verb(sql))

    def execute(self, sql, *args):
        return self._go(super().execute, sql, args)

    def executemany(self, sql, *args):
        return self._go(super().executemany, sql, args)


class Connection(sqlite3.Connection):
    def cursor(self, factory=Cursor):
        return super().cursor(factory)

    def commit(self):
        if not self.in_transaction:
            return super().commit()
        k = hit("commit", "COMMIT")
        if k:
            strike(k)
        while True:
            try:
                r = super().commit()
                break
            except sqlite3.OperationalError as e:
                wait_or_raise(e, "COMMIT")
        k = hit("committed", "COMMITTED")
        return r

    def rollback(self):
        if self.in_transaction:
            hit("rollback", "ROLLBACK")
        return super().rollback()


class Shim:
    def __getattr__(self, n):
        return getattr(sqlite3, n)

    def connect(self, *a, **k):
        k.update(factory=Connection, timeout=0)
        return sqlite3.connect(*a, **k)


def _file_seams():
    from lsst.resources.file import FileResourcePath as F

    def wrap(name):
        real = getattr(F, name)

        def f(self, *a, **k):
            kind = hit("file", name)
            if kind:
                if name == "write" and kind in ("enospc", "torn"):
                    data = a[0] if a else k["data"]
                    with open(self.ospath, "wb") as fh:
                        fh.write(data[:len(data)//2])
                    if kind == "torn":
                        os._exit(137)
                strike(kind)
            return real(self, *a, **k)
        f.__name__ = name
        setattr(F, name, f)
    for n in ("write", "mkdir", "transfer_from", "remove"):
        wrap(n)


def _atomic_seams():
    """The butler's own set-up calls are single steps: they are documented as
    safe under concurrency and may not be made part of a transaction, but this
    release of daf_butler spreads them over several."""
    from lsst.daf.butler.registry.sql_registry import SqlRegistry as R

    def wrap(name):
        real = getattr(R, name)

        def f(self, *a, **k):
            kind = hit("lib", name)
            if kind:
                strike(kind)
            Seam.atomic += 1
            try:
                return real(self, *a, **k)
            finally:
                Seam.atomic -= 1
        f.__name__ = name
        setattr(R, name, f)
    for n in ("registerRun", "registerDatasetType", "registerCollection"):
        wrap(n)


def _put_seam():
    """Storing a data set can fail in ways of the datastore's own; this one
    turns all of them into one kind of error."""
    from lsst.daf.butler.direct_butler import DirectButler as B
    real = B.put

    def put(self, *a, **k):
        kind = hit("put", "put")
        if kind:
            strike(kind)
        r = real(self, *a, **k)
        kind = hit("put", "stored")
        if kind:
            strike(kind)
        return r
    B.put = put


def shim():
    import lsst.daf.butler.registry.databases.sqlite as S
    if not isinstance(S.sqlite3, Shim):
        S.sqlite3 = Shim()
        _file_seams()
        _atomic_seams()
        _put_seam()


def engine(b):
    return b._registry._db._engine


def preopen(slots):
    """In the zygote: clients opened before anything was registered."""
    from lsst.daf.butler import Butler
    from lsst.skymap import skyMapRegistry
    shim()
    warm = slots[0] + "-warm-%d" % os.getpid()
    shutil.copytree(os.path.join(os.path.dirname(slots[0]), "template"), warm)
    w = Butler.from_config(warm, writeable=True)
    c = skyMapRegistry["discrete"].ConfigClass()
    c.raList, c.decList, c.radiusList, c.pixelScale = [10.0], [0.0], [1.0], 20.0
    try:
        skyMapRegistry["discrete"](c).register("warm", w)
        w.get("skyMap", skymap="warm", collections="skymaps")
        list(w.registry.queryDimensionRecords("patch", skymap="warm"))
    except Exception:
        pass        # a broken tree must not stop the node from starting
    engine(w).dispose()
    shutil.rmtree(warm, ignore_errors=True)
    for s in slots:
        PRE[s] = Butler.from_config(s, writeable=True)
        engine(PRE[s]).dispose()


def connect(nd, slot, how, seed, stepped=False):
    import uuid
    from lsst.daf.butler import Butler
    shim()
    Seam.sock = nd.sock
    rng = random.Random(seed)
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    if how == "old" and slot in PRE:
        nd.butler = PRE[slot]
    else:
        Seam.active = stepped
        try:
            nd.butler = Butler.from_config(slot, writeable=how != "ro")
        finally:
            Seam.active = False
    return how


def failure(e):
    from lsst.daf.butler.registry import ConflictingDefinitionError
    return ("raised", type(e).__name__, isinstance(e, ConflictingDefinitionError), str(e)[:300])


def register(nd, key, name, opts):
    """A registration, stopping at every seam."""
    def go(sm):
        try:
            sm.register(name, nd.butler)
            return ("ok",)
        except BaseException as e:
            return failure(e)
    Seam.active = True
    try:
        if not (opts.get("py") or opts.get("mix") or opts.get("count")):
            return go(nd.maps[key])
        M = nd.M(key)
        evs = [dict(e) for e in (opts.get("mix") or {}).get("events", ())]
        me = 1 + max([e["t"] for e in evs] or [-1])
        evs.append({"id": 9999, "t": me, "op": ["register", 0]})
        plan = {"specs": [nd.specs[key]], "events": evs, "sched_seed": (opts.get("mix") or {}).get("seed", 0),
                "strategy": (opts.get("mix") or {}).get("strategy", {"kind": "none"}), "max_steps": 6_000_000,
                "faults": [{"id": 9999, "at": f["at"], "kind": f["kind"]} for f in opts.get("py") or ()]}

        def impl(M, op):
            return go(M[0]) if op[0] == "register" else T.plain(M, op)
        r = T.execute(plan, impl=impl, maps=M)
        from .. import sched
        sched.set_events(False, False)
        if r["stop"]:
            return ("stuck", r["stop"])
        res = r["answers"][9999]
        if opts.get("count"):
            return ("counted", res[0], r["calls"].get(9999, 0))
        return tuple(res) + ({"fired": r["fired"], "steps": r["steps"], "switches": r["switches"]},)
    finally:
        Seam.active = False


def verts(region):
    return tuple((v.x(), v.y(), v.z()) for v in region.getVertices())


def read(nd, name):
    """What this process finds about a registered map."""
    from .. import canon as C
    b = nd.butler
    b.registry.refresh()
    out = {}
    out["skymap"] = [(r.name, r.hash.hex(), int(r.tract_max), int(r.patch_nx_max), int(r.patch_ny_max))
                     for r in b.registry.queryDimensionRecords("skymap") if r.name == name]
    out["tract"] = [(int(r.id), verts(r.region)) for r in b.registry.queryDimensionRecords("tract", skymap=name)]
    out["patch"] = [(int(r.tract), int(r.id), int(r.cell_x), int(r.cell_y), verts(r.region))
                    for r in b.registry.queryDimensionRecords("patch", skymap=name)]
    sm = b.get("skyMap", skymap=name, collections="skymaps")
    out["class"] = type(sm).__name__
    out["hash"] = sm.getSha1().hex()
    out["config"] = repr(sorted(node.flat(sm.config.toDict())))
    out["grid"] = tuple((int(t.getId()), C.pair(t.getNumPatches()), C.box(t.getBBox()), C.sp(t.getCtrCoord()),
                         C.pair(t.getPatchInnerDimensions()), int(t.getPatchBorder())) for t in sm)
    nd.maps["read " + name] = sm
    return out


def same_map(nd, name, spec):
    """The stored map equals the original, built here."""
    sm = nd.maps["read " + name]
    mine = scen.make_map(spec)
    return (bool(sm == mine), bool(mine == sm), hash(sm) == hash(mine), placed(sm) == placed(mine))


def placed(sm):
    """The tracts of some coordinates."""
    import numpy as np
    import lsst.geom as g
    dec = np.linspace(-1.57, 1.57, 37)
    ra = (dec*7.7) % (2*np.pi)
    ra[::3] = 0.0
    one = [int(sm.findTract(g.SpherePoint(float(r), float(d), g.radians)).getId()) for r, d in zip(ra, dec)]
    return one, [int(v) for v in sm.findTractIdArray(ra, dec)]


def expect(spec, limit=None):
    """The rows of a map, from a fresh one: the reference."""
    from .. import canon as C
    sm = scen.make_map(spec)
    if limit and len(sm) > 40:
        return None
    out = {"tract": [], "patch": [], "grid": [], "hash": sm.getSha1().hex(), "class": type(sm).__name__,
           "config": repr(sorted(node.flat(sm.config.toDict())))}
    n = 0
    # every tract from a map of its own, so that no tract can spoil another
    for i in range(len(sm)):
        t = scen.make_map(spec)[i]
        nx, ny = C.pair(t.getNumPatches())
        n += nx*ny
        if limit and n > limit:
            return None
        out["tract"].append((int(t.getId()), verts(t.getOuterSkyPolygon())))
        out["grid"].append((int(t.getId()), (nx, ny), C.box(t.getBBox()), C.sp(t.getCtrCoord()),
                            C.pair(t.getPatchInnerDimensions()), int(t.getPatchBorder())))
        for y in range(ny):
            for x in range(nx):
                p = t.getPatchInfo((x, y))
                out["patch"].append((int(t.getId()), nx*y + x, x, y, verts(p.getOuterSkyPolygon(t.getWcs()))))
    out["row"] = (out["hash"], len(sm), max(g[1][0] for g in out["grid"]), max(g[1][1] for g in out["grid"]))
    return out


def pack_all(nd, name, route, bands, ids, limits, strays=()):
    """Pack and unpack every tract and patch by a packer made from the record
    (some of its limits may be given by hand).  The same process has used
    packers for sky maps of other repositories."""
    b = nd.butler
    b.registry.refresh()
    out = []
    for k, (n, nt, nx, ny) in enumerate(strays):
        from lsst.daf.butler import DataCoordinate
        rec = b.dimensions["skymap"].RecordClass(skymap=n, hash=bytes([k + 1])*20, tract_max=nt, patch_nx_max=nx,
                                                 patch_ny_max=ny)
        d = DataCoordinate.standardize(skymap=n, universe=b.dimensions).expanded({"skymap": rec})
        some = [(t, q, bands[-1] if bands else "r" if route == "plain" else None)
                for t in sorted({0, nt - 1}) for q in sorted({0, nx*ny//2, nx*ny - nx, nx*ny - 1})]
        out.append((some, pack_ids(packer(nd, d, route, bands, {}), n, some, b.dimensions)))
    p = packer(nd, b.registry.expandDataId(skymap=name), route, bands, limits)
    return int(p.maxBits), pack_ids(p, name, ids, b.dimensions), out


def packer(nd, d, route, bands, limits):
    from lsst.skymap.packers import SkyMapDimensionPacker
    n_bands = len(bands) if bands else 0
    bands = {x: i for i, x in enumerate(bands)} if bands else None
    if route == "args":
        return SkyMapDimensionPacker(d, bands=bands, n_bands=n_bands, **limits)
    if route == "plain":      # default bands
        return SkyMapDimensionPacker(d, **limits)
    if route == "dims":
        dims = nd.butler.dimensions.conform(["tract", "patch"] + (["band"] if bands else []))
        return SkyMapDimensionPacker(d, dims, bands=bands, **limits)
    from lsst.pex.config import Config

    class C(Config):
        packer = SkyMapDimensionPacker.make_config_field()
    c = C()
    c.packer.n_bands = n_bands
    for k, v in limits.items():
        setattr(c.packer, k, v)
    if bands:
        c.packer.bands = bands
    return c.packer.apply(d)


def pack_ids(p, name, ids, universe):
    from lsst.daf.butler import DataCoordinate
    out = []
    for t, pt, band in ids:
        x = {"skymap": name, "tract": t, "patch": pt}
        if band is not None:
            x["band"] = band
        try:
            v = int(p.pack(DataCoordinate.standardize(x, universe=universe)))
            u = p.unpack(v)
            out.append((v, int(u["tract"]), int(u["patch"]), u["skymap"], u["band"] if band is not None else None))
        except Exception as e:
            out.append(("raised", type(e).__name__, str(e)[:200]))
    return out


# -- coordinator -------------------------------------------------------------------
def snapshot(root):
    """Everything about sky maps in the repository, straight from its files;
    None while the database is locked."""
    db = sqlite3.connect(os.path.join(root, "gen3.sqlite3"), timeout=0, isolation_level=None)
    try:
        db.execute("BEGIN")
        maps = {}
        for n, h, t, x, y in db.execute("SELECT name, hash, tract_max, patch_nx_max, patch_ny_max FROM skymap"):
            maps[n] = {"row": (unhash(h), t, x, y), "tract": {}, "patch": {}, "data": []}

        def of(n):
            return maps.setdefault(n, {"row": None, "tract": {}, "patch": {}, "data": []})
        for n, i, r in db.execute("SELECT skymap, id, region FROM tract"):
            of(n)["tract"][i] = r
        for n, t, i, x, y, r in db.execute("SELECT skymap, tract, id, cell_x, cell_y, region FROM patch"):
            of(n)["patch"][(t, i)] = (x, y, r)
        for (tags,) in db.execute("SELECT tag_association_table FROM dataset_type WHERE name = 'skyMap'").fetchall():
            try:
                rows = db.execute('SELECT g.skymap, g.dataset_id, f.path FROM "%s" g LEFT JOIN file_datastore_records f'
                                  ' ON f.dataset_id = g.dataset_id' % tags).fetchall()
            except sqlite3.OperationalError as e:
                if "no such table" in str(e):
                    continue
                raise
            for n, d, path in rows:
                fh = None
                if path is not None:
                    try:
                        with open(os.path.join(root, path), "rb") as f:
                            fh = hashlib.sha1(f.read()).hexdigest()
                    except OSError:
                        pass
                of(n)["data"].append((str(d), path, fh))
        db.execute("COMMIT")
        return maps
    except sqlite3.OperationalError as e:
        if "locked" in str(e):
            return None
        raise
    finally:
        db.close()


def unhash(h):
    """Databases keep the digest as base64 text."""
    return (base64.b64decode(h) if isinstance(h, str) else bytes(h)).hex()


class Client:
    """A client process, as the coordinator knows it."""


class RegRun:
    def __init__(self, world, plan, slot):
        self.w = world
        self.plan = plan
        self.slot = slot
        self.specs = plan["specs"]
        self.exp = [world.expected(s) for s in self.specs]
        self.vio = []
        self.h = hashlib.sha1()
        self.faults = {}
        self.stats = {}
        self.steps = 0
        self.decisions = []
        self.bound = {}      # name -> digest of everything about it, once complete
        self.hashof = {}     # name -> map hash
        self.packed = {}     # (name, how) -> data id -> integer
        self.results = {}    # event id -> result
        self.done = []       # events in completion order
        self.at = 0

    def bump(self, d, k, n=1):
        d[k] = d.get(k, 0) + n

    def bad(self, sig, msg, *a):
        self.vio.append({"sig": sig, "msg": "step %d: %s" % (self.steps, msg % a if a else msg)})

    def only(self, *props):
        return self.w.prop in props

    # nodes
    def start(self, n, flavour, how):
        c = self.spawn(flavour, how)
        x = c.r.call("worlds.butler.connect", self.slot, how, n)
        if not x[0] or x[0] == "seam":
            raise core.HarnessError("opening the repository failed: %r" % (x,))
        return c

    def spawn(self, flavour, how):
        r = node.Remote(self.w.zyg.path(flavour), flavour)
        c = Client()
        c.r, c.ev, c.k, c.pending, c.blocked, c.keys, c.fault = r, None, 0, None, False, set(), None
        c.flavour, c.how, c.alive, c.fired, c.queue = flavour, how, True, [], []
        c.intx = False
        return c

    def kill(self, n):
        c = self.nodes[n]
        c.r.crash()
        gone(c.r.pid)
        c.alive = False
        c.intx = False

    def simple(self, n, fn, *a):
        r = self.nodes[n].r.call(fn, *a)
        if r[0] == "seam":
            raise core.HarnessError("unexpected seam in %s" % fn)
        return r

    def build(self, n, ev):
        """The map this registration uses; kept for later ones."""
        c = self.nodes[n]
        key = "m%d" % ev["s"]
        if key in c.keys:
            return key
        spec = self.specs[ev["s"]]
        r = self.simple(n, "build", key, spec, ev.get("order"))
        if not r[0]:
            raise core.HarnessError("building a map failed: %r" % (r,))
        how = ev.get("how")
        if how in ("copy", "deepcopy"):
            self.simple(n, "copy", key, key, how)
        elif how == "restored":
            b = self.simple(n, "save", key, "pickle", 4)
            if not b[0] or not self.simple(n, "load", key, b[1], spec)[0]:
                raise core.HarnessError("restoring a map failed")
        c.keys.add(key)
        return key

    # the run
    def go(self):
        self.nodes = []
        try:
            for n, d in enumerate(self.plan["nodes"]):
                self.nodes.append(self.start(n, d["flavour"], d["how"]))
            self.byid = {e["id"]: e for e in self.plan["events"]}
            for e in self.plan["events"]:
                self.nodes[e["n"]].queue.append(e)
            self.flt = {}
            for f in self.plan.get("faults") or ():
                self.flt.setdefault(f["id"], []).append(f)
            self.rng = random.Random(self.plan["sched_seed"])
            self.script = list(self.plan["script"]) if "script" in self.plan else None
            self.loop()
            self.settle()
            if not self.vio:
                self.audit()
        finally:
            for c in self.nodes:
                c.r.close()
            for c in self.nodes:
                gone(c.r.pid)
        nontrivial = self.stats.get("registrations_begun", 0) > 0 and (
            bool(self.faults) or self.stats.get("overlapped_steps", 0) > 0 or self.stats.get("registrations_ok", 0) > 1)
        return {"violations": self.vio, "steps": self.steps, "faults": self.faults, "trace": self.h.hexdigest(),
                "nontrivial": nontrivial, "stats": self.stats, "decisions": self.decisions}

    def loop(self):
        last = None
        limit = self.plan.get("max_steps", 20000)
        while True:
            act = [n for n, c in enumerate(self.nodes) if c.ev is not None or c.queue]
            if not act:
                return
            el = [n for n in act if not self.nodes[n].blocked]
            if not el:
                # nobody can let go of the lock: the busy time-out expires for one of them
                n = act[0]
                self.nodes[n].fault = "timeout"
                self.bump(self.faults, "lock_timeout")
                self.nodes[n].fired.append("timeout")
                el = [n]
            n = self.choose(el, last)
            last = n
            if sum(1 for x in act if self.nodes[x].ev is not None) > 1:
                self.bump(self.stats, "overlapped_steps")
            self.step(n)
            self.steps += 1
            if self.steps > limit:
                self.bad("no-progress", "registrations did not end within %d steps", limit)
                return
            if self.vio:
                return

    def choose(self, el, last):
        if len(el) == 1:
            return el[0]
        if self.script is not None:
            while self.script:
                n = self.script.pop(0)
                if n in el:
                    return n
            return last if last in el else el[0]
        st = self.plan["strategy"]
        if st["kind"] == "sticky" and last in el and self.rng.random() >= st["p"]:
            n = last
        elif st["kind"] == "lockstep":
            n = min(el, key=lambda x: (self.nodes[x].k, x))
        else:
            n = self.rng.choice(el)
        self.decisions.append(n)
        return n

    def step(self, n):
        c = self.nodes[n]
        if c.ev is None:
            self.begin(n)
            return
        f, c.fault = c.fault, None
        kind = c.pending[1]
        c.blocked = False
        try:
            r = c.r.step(f)
        except node.NodeDied:
            self.died(n)
            return
        if kind in ("commit", "rollback", "committed"):
            self.release()
        self.message(n, r)

    def release(self):
        for c in self.nodes:
            c.blocked = False

    def begin(self, n):
        c = self.nodes[n]
        if not c.alive:
            # opening the repository again may have to wait for the lock too
            q = c.queue
            self.nodes[n] = c = self.spawn(c.flavour, self.plan["nodes"][n]["again"])
            c.queue = q
            c.ev = {"id": -1, "do": "open"}
            self.message(n, c.r.call("worlds.butler.connect", self.slot, c.how, n, True))
            return
        ev = c.queue.pop(0)
        if ev["do"] == "crash":
            self.kill(n)
            self.bump(self.faults, "crash_between")
            return
        if ev["do"] == "use":
            key = self.build(n, ev)
            r = self.simple(n, "ask", key, ev["ops"])
            self.bump(self.stats, "prior_uses", len(ev["ops"]))
            self.h.update(repr(r[0]).encode())
            return
        key = self.build(n, ev)
        c = self.nodes[n]
        c.ev, c.k, c.pending, c.blocked, c.fault, c.fired = ev, 0, None, False, None, []
        opts = {}
        py = [f for f in self.flt.get(ev["id"], ()) if f.get("py")]
        if py:
            opts["py"] = py
        if ev.get("mix"):
            opts["mix"] = ev["mix"]
        self.bump(self.stats, "registrations_begun")
        try:
            r = c.r.call("worlds.butler.register", key, ev["name"], opts)
        except node.NodeDied:
            self.died(n)
            return
        self.message(n, r)

    def died(self, n):
        c = self.nodes[n]
        gone(c.r.pid)
        if not any(f.get("py") and f["kind"] == "crash" for f in self.flt.get(c.ev["id"], ())) and "crash" not in c.fired:
            raise core.HarnessError("a client died by itself")
        self.bump(self.faults, "crash_at_call")
        c.r.close()
        c.alive = False
        self.result(n, ("died",))

    def message(self, n, r):
        c = self.nodes[n]
        if r[0] != "seam":
            if not r[0]:
                raise core.HarnessError("%s call failed: %r" % (c.ev["do"], r))
            self.result(n, r[1])
            return
        _, kind, what = r
        self.h.update(("%d %s %s;" % (n, kind, what)).encode())
        c.pending = r
        if kind == "blocked":
            c.blocked = True
            self.bump(self.stats, "lock_waits")
            return
        if kind == "sql" and what == "BEGIN":
            pass
        k = c.k
        c.k += 1
        if kind == "committed":
            self.observe()
        for f in self.flt.get(c.ev["id"], ()):
            if f.get("py") or f["at"] != k:
                continue
            fk = f["kind"]
            if fk == "crash":
                c.fired.append("crash")
                self.bump(self.faults, "crash_at_" + kind)
                self.kill(n)
                self.result(n, ("died",))
                return
            fk = applicable(fk, kind, what, f)
            if fk is None:
                continue
            c.fault = fk
            c.fired.append(fk if fk != "torn" else "crash")
            self.bump(self.faults, "%s_at_%s" % (fk, kind))

    def result(self, n, r):
        c = self.nodes[n]
        ev, fired = c.ev, c.fired
        c.ev = None
        c.blocked = False
        self.release()
        if ev["do"] == "open":
            self.bump(self.stats, "reopened")
            return
        extra = r[-1] if isinstance(r[-1], dict) else {}
        for f in extra.get("fired", ()):
            fired.append(f[2])
            self.bump(self.faults, "%s_at_call" % f[2])
        self.bump(self.stats, "context_switches", extra.get("switches", 0))
        kind = r[0]
        if kind == "raised" and r[2]:
            kind = "conflict"
        self.h.update(("=%d %s %s;" % (n, kind, r[1] if kind == "raised" else "")).encode())
        self.results[ev["id"]] = (kind, r, list(fired))
        self.done.append(ev["id"])
        self.bump(self.stats, "registrations_" + kind)
        if kind == "stuck":
            if not str(r[1]).startswith("given up"):
                self.bad("no-progress", "registration never ended: %s", r[1])
            return
        snap = self.observe()
        if snap is None:
            return
        x = self.exp[ev["s"]]
        if kind == "ok":
            got = snap.get(ev["name"])
            if got is None or got["row"] is None or got["row"][0] != x["hash"] or not self.complete(got, x):
                if fired and self.only("C12"):
                    self.bad("failure swallowed", "registering map %d as %r returned although %s struck, and the"
                             " repository holds %s", ev["s"], ev["name"], fired, brief(got))
                elif self.only("C12", "C13", "C14"):
                    self.bad("ok but not registered", "registering map %d as %r returned, but the repository holds %s",
                             ev["s"], ev["name"], brief(got))
        elif kind == "conflict":
            if not self.conflicting(snap, ev, x) and self.only("C13"):
                self.bad("false conflict", "registering map %d as %r raised ConflictingDefinitionError (%s) although"
                         " nothing conflicts (faults: %s); repository: %s", ev["s"], ev["name"], r[3], fired,
                         {k: brief(v) for k, v in snap.items()})
        elif kind == "raised" and not fired:
            if self.only("C12", "C13", "C14", "C16"):
                self.bad("registration raised", "registering map %d as %r raised %s: %s, though nothing failed",
                         ev["s"], ev["name"], r[1], r[3])

    def conflicting(self, snap, ev, x):
        for name, m in snap.items():
            if m["row"] is None:
                continue
            if (name == ev["name"]) != (m["row"][0] == x["hash"]):
                return True
        return False

    # observation by a bystander
    def complete(self, m, x):
        return (m["row"] is not None and set(m["tract"]) == {t for t, _ in x["tract"]}
                and set(m["patch"]) == {p[:2] for p in x["patch"]}
                and len(m["data"]) == 1 and m["data"][0][2] is not None)

    def observe(self):
        snap = snapshot(self.slot)
        if snap is None:
            self.bump(self.stats, "observations_locked_out")
            return None
        self.bump(self.stats, "observations")
        byhash = {x["hash"]: x for x in self.exp}
        for name, m in sorted(snap.items()):
            if m["row"] is None:
                if self.only("C12"):
                    self.bad("leftovers", "there is no sky map %r, but the repository holds %s of it", name, brief(m))
                continue
            x = byhash.get(m["row"][0])
            if x is None:
                if self.only("C14"):
                    self.bad("wrong hash", "sky map %r is recorded with a hash none of the registered maps has", name)
                continue
            if not self.complete(m, x):
                if self.only("C12"):
                    self.bad("partial", "an observer finds sky map %r partly registered: %s, of %d tracts and %d"
                             " patches", name, brief(m), len(x["tract"]), len(x["patch"]))
                continue
            d = hashlib.sha1(repr((m["row"], sorted(m["tract"].items()), sorted(m["patch"].items()),
                                   m["data"])).encode()).hexdigest()
            if name in self.bound:
                if self.bound[name] != d and self.only("C13"):
                    self.bad("registered map changed", "the registration of %r was complete and has been changed", name)
            else:
                self.bound[name] = d
                self.hashof[name] = m["row"][0]
                self.bump(self.stats, "maps_registered")
        for name in self.bound:
            if name not in snap and self.only("C13", "C12"):
                self.bad("registered map vanished", "the complete registration of %r has vanished", name)
        hs = [m["row"][0] for m in snap.values() if m["row"]]
        if len(set(hs)) != len(hs) and self.only("C13"):
            self.bad("one map, two names", "one map is registered under several names")
        return snap

    # after faults and contention stop
    def settle(self):
        if self.vio:
            return
        self.flt = {}
        order = [e for e in self.plan["events"] if e["do"] == "reg"]
        for e in order:
            for attempt in (0, 1):
                k, r, fired = self.results.get(e["id"], ("never", (), []))
                if k in ("ok", "conflict"):
                    break
                if attempt:
                    if self.only("C12", "C13"):
                        self.bad("retry failed", "with nothing failing any more, registering map %d as %r on node %d"
                                 " (%s) raised %s", e["s"], e["name"], n, e.get("retry"), r[1:])
                    return
                n = e["n"]
                if e.get("retry") == "other":
                    n = (n + 1) % len(self.nodes)
                elif e.get("retry") == "restart" and self.nodes[n].alive:
                    self.kill(n)
                self.bump(self.stats, "retries")
                self.nodes[n].queue.append(dict(e, n=n, mix=None))
                self.loop()
                if self.vio:
                    return
        snap = self.observe()
        if snap is None:
            if self.only("C12", "C13"):
                self.bad("locked for good", "every registration has ended, and the database is still locked")
            return
        if self.vio:
            return
        for e in order:
            k, r, fired = self.results[e["id"]]
            x = self.exp[e["s"]]
            m = snap.get(e["name"])
            if k == "ok" and (m is None or m["row"] is None or m["row"][0] != x["hash"]):
                if self.only("C13", "C12"):
                    self.bad("two winners", "registering map %d as %r succeeded, but the name is bound to %s",
                             e["s"], e["name"], brief(m))
            if k == "conflict" and not self.conflicting(snap, e, x) and self.only("C13"):
                self.bad("false conflict", "registering map %d as %r raised ConflictingDefinitionError although nothing"
                         " conflicts", e["s"], e["name"])

    def audit(self):
        """Readers in other processes."""
        if self.w.prop not in ("C14", "C16", "C12"):
            return
        byhash = {x["hash"]: k for k, x in enumerate(self.exp)}
        bound = {name: byhash[h] for name, h in self.hashof.items()}
        for e in self.plan["events"]:       # successfully registered, whatever the rows look like
            if self.results.get(e["id"], ("",))[0] == "ok":
                bound.setdefault(e["name"], e["s"])
        for a in self.plan["readers"]:
            c = self.start(100, a["flavour"], a["how"])
            self.nodes.append(c)
            n = len(self.nodes) - 1
            for name, s in sorted(bound.items()):
                x = self.exp[s]
                if self.w.prop == "C16":
                    self.packing(n, name, x, a)
                else:
                    self.reading(n, name, s, x)
                if self.vio:
                    return

    def reading(self, n, name, s, x):
        r = self.simple(n, "worlds.butler.read", name)
        if not r[0]:
            self.bad("unreadable", "reading sky map %r from another process raised %s: %s", name, r[1], r[2])
            return
        r = r[1]
        self.bump(self.stats, "read_back")
        if self.w.prop == "C12":
            return
        if [tuple(v[1:]) for v in r["skymap"]] != [x["row"]]:
            self.bad("summary row", "the summary row of %r is %s, not (hash, tracts, nx, ny) = %s", name, r["skymap"],
                     x["row"])
        self.rows("tract", name, r["tract"], x["tract"], 1)
        self.rows("patch", name, r["patch"], x["patch"], 4)
        for k in ("class", "config", "hash", "grid"):
            if tuple(r[k]) != tuple(x[k]):
                self.bad("stored map", "the map stored as %r has another %s: %s", name, k, T.diff(r[k], x[k]))
                break
        q = self.simple(n, "worlds.butler.same_map", name, self.specs[s])
        if q[0] and q[1] == (True, True, True, False):
            self.bad("stored map", "the map stored as %r puts coordinates into other tracts than the original", name)
        elif not q[0] or q[1] != (True, True, True, True):
            self.bad("stored map", "the map stored as %r is not equal to the original: %s", name, q[1:])

    def rows(self, what, name, got, want, nkey):
        g = {v[:nkey]: v[nkey] for v in got}
        w = {v[:nkey]: v[nkey] for v in want}
        if len(g) != len(got) or set(g) != set(w):
            self.bad(what + " rows", "the %s rows of %r are not the map's: missing %s, unexpected %s", what, name,
                     sorted(set(w) - set(g))[:4], sorted(set(g) - set(w))[:4])
            return
        for k in sorted(w):
            if not near(g[k], w[k]):
                self.bad(what + " region", "the region of %s %s of %r is not the map's outer sky region", what, k, name)
                return
        self.bump(self.stats, what + "_rows_checked", len(w))

    def packing(self, n, name, x, a):
        bands = a["bands"]
        rng = random.Random(a["pick"])
        ids = []
        for p in x["patch"]:
            if bands:
                ids += [(p[0], p[1], b) for b in (bands if len(x["patch"]) < 40 else rng.sample(bands, 1))]
            elif a["route"] == "plain":
                ids.append((p[0], p[1], rng.choice("ugrizy")))
            else:
                ids.append((p[0], p[1], None))
        limits = {k: v + x["row"][1] if k == "n_tracts" else v + x["row"][2]*x["row"][3]
                  for k, v in a.get("over", {}).items()}
        row = x["row"]
        strays = [[name if y[0] else "elsewhere", max(1, row[1] + y[1]), max(1, row[2] + y[2]), max(1, row[3] + y[3])]
                  for y in a.get("strays", ())]
        r = self.simple(n, "worlds.butler.pack_all", name, a["route"], bands, ids, limits, strays)
        if not r[0]:
            self.bad("packer", "a packer from the record of %r cannot be made by %r: %s %s", name, a["route"], r[1],
                     r[2])
            return
        bits, res, others = r[1]
        seen = {}
        for y, (some, rs) in zip(strays, others):
            self.bump(self.stats, "packers_of_other_repositories")
            for i, v in zip(some, rs):
                if (v[1:3] + v[4:5] if v[0] != "raised" else v) != i:
                    self.bad("other repository", "tract %s patch %s (band %s) of sky map %r of another repository, of %d"
                             " tracts and %d x %d patches, gives %s", *i, *y, v)
                    return
        same = self.packed.setdefault((name, x["hash"], repr(bands), a["route"] == "plain", repr(limits)), {})
        for i, v in zip(ids, res):
            if v[0] == "raised":
                self.bad("pack raised", "tract %s patch %s (band %s) of %r cannot be packed: %s: %s", *i, name, *v[1:])
                return
            if same.setdefault(i, v[0]) != v[0]:
                self.bad("packs differ", "tract %s patch %s (band %s) of %r packs to %s and, by another process, to %s",
                         *i, name, v[0], same[i])
                return
            if (v[1], v[2], v[4]) != i or v[3] != name:
                self.bad("unpack differs", "tract %s patch %s (band %s) of %r packs to %s, which unpacks to %s",
                         *i, name, v[0], v[1:])
                return
            if seen.setdefault(v[0], i) != i:
                self.bad("collision", "%s and %s of %r both pack to %s", seen[v[0]], i, name, v[0])
                return
            if not 0 <= v[0] < 1 << bits:
                self.bad("does not fit", "tract %s patch %s (band %s) of %r packs to %s, not in %d bits", *i, name,
                         v[0], bits)
                return
        self.bump(self.stats, "ids_packed", len(ids))


def applicable(fk, kind, what, f):
    """Faults that can strike at this seam; others pass by."""
    if kind == "committed" or kind == "rollback":
        return None
    sql = ("io", "full", "busy", "ro", "memory", "interrupt", "corrupt")
    fil = ("enospc", "eio", "eacces", "torn", "memory", "interrupt")
    if kind in ("sql", "commit", "lib"):
        if fk in sql:
            return fk
        return {"enospc": "full", "eio": "io", "eacces": "ro", "torn": "io"}.get(fk)
    if kind in ("file", "put"):
        if fk == "torn" and what != "write":
            return "eio"
        if fk in fil:
            return fk
        return {"full": "enospc", "io": "eio", "ro": "eacces", "busy": "eio", "corrupt": "eio"}.get(fk)
    return None


def near(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    left = list(b)
    for v in a:
        for i, u in enumerate(left):
            if abs(u[0] - v[0]) < tol and abs(u[1] - v[1]) < tol and abs(u[2] - v[2]) < tol:
                del left[i]
                break
        else:
            return False
    return True


def brief(m):
    if m is None:
        return "nothing"
    return "%s, %d tract rows, %d patch rows, %d stored maps%s" % (
        "a summary row" if m["row"] else "no summary row", len(m["tract"]), len(m["patch"]), len(m["data"]),
        "" if all(d[2] for d in m["data"]) else " without file")


def gone(pid, timeout=20.0):
    """Wait until a killed process has let go of its files."""
    end = time.monotonic() + timeout
    d = 0.0002
    while time.monotonic() < end:
        try:
            os.kill(pid, 0)
        except ProcessLookupError:
            return
        time.sleep(d)
        d = min(0.01, d*1.5)


def sort(s):
    """The class of a map, and whether its numbering is of the old kind."""
    return s["cls"] + ("" if s["cls"] != "rings0" or s["cfg"]["numRings"] > 1 else "-")


class ButlerWorld(ClusterWorld):
    nscen = {"quick": 18, "thorough": 48}
    pool = {"quick": 40, "thorough": 120}
    maxpatches = 130
    real = ("lsst.skymap (/repo/python)", "lsst.daf.butler with its file datastore", "SQLite on a scratch file",
            "lsst.resources", "lsst.pex.config", "lsst.sphgeom", "separate interpreter processes as clients")
    stubs = ("lsst.geom, lsst.afw.geom, lsst.pex.exceptions (dst.stubs)",
             "waiting for the database lock, process scheduling and process life cycle (simulated)",
             "dataset UUIDs (seeded)")
    assumptions = (
        "SQLite and the butler keep their own transaction guarantees; process death is simulated, loss of power"
        " (unsynced writes) is not",
        "clients interleave at every SQL statement, commit, rollback and file operation of a registration",
    )

    def template(self):
        p = os.path.join(self.scratch, "template")
        if not os.path.exists(p):
            from lsst.daf.butler import Butler, DimensionConfig
            dims = DimensionConfig()
            dims["skypix", "common"] = "htm2"      # a coarse pixelisation keeps the overlap tables small
            dims["namespace"] = "sim"
            Butler.makeRepo(p + "-tmp", dimensionConfig=dims)
            b = Butler.from_config(p + "-tmp", writeable=True)   # creates the tables opened lazily
            engine(b).dispose()
            os.rename(p + "-tmp", p)
        return p

    def slot(self, w):
        return os.path.join(self.scratch, "slot%d" % w)

    def reset(self, slot):
        t = self.template()
        if not os.path.exists(slot):
            shutil.copytree(t, slot)
            return
        keep = {"butler.yaml"}
        for n in os.listdir(slot):
            if n in keep:
                continue
            p = os.path.join(slot, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        shutil.copyfile(os.path.join(t, "gen3.sqlite3"), os.path.join(slot, "gen3.sqlite3"))

    def start_zygotes(self, n):
        slots = [self.slot(w) for w in range(n)]
        for s in slots:
            self.reset(s)
        self.zyg = node.Zygotes(self.scratch, slots)
        self.zyg.start(wait=False)

    def prepare(self):
        self.unbuildable = set()
        self.start_zygotes(min(16, int(os.environ.get("DST_WORKERS", 0)) or 8))
        T.ThreadWorld.prepare(self)
        self.zyg.start()
        self.myslot = self.slot(0)
        self.size = [self.dry(s) for s in self.specs]
        forks.pmap(self.expected, self.specs)
        n = [len(self.expected(s)["tract"]) + len(self.expected(s)["patch"]) for s in self.specs]
        self.big = [j for j, k in enumerate(n) if k > self.maxpatches + 40]
        self.small = [j for j in range(len(n)) if j not in self.big]

    def worker_init(self, w):
        if not hasattr(self, "zyg"):
            self.unbuildable = set()
            self.start_zygotes(1)
            self.zyg.start()
        self.myslot = self.slot(w)

    def expected(self, spec):
        return self.store.get(["expect", spec], lambda: forks.call(lambda: expect(spec)))

    def want_specs(self, rng, n):
        """Maps small enough to register often; some whose widest and tallest
        patch grids are in different tracts."""
        order = ["discrete", "rings", "healpix", "discrete", "dodeca", "equat", "rings0", "rings"]
        cand = [scen.SPLIT[k] for k in rng.sample(range(len(scen.SPLIT)), min(n//4, len(scen.SPLIT)))]
        for k in range(5*n):
            s = scen.gen_spec(rng, order[k % len(order)], ("legacy", "legacy", "cells")[rng.randrange(3)], small=True)
            s["cfg"]["pixelScale"] = scen.r3(s["cfg"]["pixelScale"]*rng.choice((1.0, 1.0, 1.6)))
            cand.append(s)
        got = forks.pmap(lambda s: (expect(s, self.maxpatches),), cand)
        plain, split = [], []
        for s, x in zip(cand, got):
            if isinstance(x, Exception) or x[0] is None:
                continue
            x = x[0]
            self.store.get(["expect", s], lambda: x)
            (plain if any(g[1] == x["row"][2:] for g in x["grid"]) else split).append(s)
        split = split[:n//3] + self.rare(rng, max(4, n//4))      # up to 2 more
        # many different numbers of patches in a tract
        sizes = {k: {g[1][0]*g[1][1] for g in self.expected(s)["grid"]} for k, s in enumerate(plain)}
        out = []
        seen = set()
        while plain and len(out) < n - len(split):
            k = max(sizes, key=lambda k: (sort(plain[k]) not in seen, len(sizes[k] - seen) > 0, -k))
            seen |= sizes.pop(k) | {sort(plain[k])}
            out.append(plain[k])
        out += split
        rng.shuffle(out)
        big = scen.big_specs(rng)
        got = forks.pmap(lambda s: (expect(s),), big)
        return out + [s for s, x in zip(big, got) if not isinstance(x, Exception)]

    def rare(self, rng, n):
        """Maps of one tract, with a tract several times, of one patch, and other rarer shapes."""
        kinds = []
        for k in range(8*n):
            s = scen.exotic(rng, big=False)
            kind = min(k % 6, 4)
            if kind < 4:
                s = scen.gen_spec(rng, "discrete", small=True)
                c = s["cfg"]
                if kind < 3:
                    for f in ("raList", "decList", "radiusList"):
                        c[f] = c[f][:1] if kind == 0 else [c[f][0], c[f][1], c[f][0]]
                if kind == 2:       # tracts of different sizes with the same centre, one after another
                    m = rng.choice((0, 1))
                    for f in ("raList", "decList"):
                        c[f][m + 1] = c[f][m]
                    c["radiusList"][m + 1] = scen.r3(c["radiusList"][m]*rng.choice((0.5, 1.6)))
                elif kind == 3:     # the largest of many is somewhere in between
                    m = rng.choice((5, 6, 7, 8))
                    r = c["radiusList"][0]
                    c["radiusList"] = [scen.r3(r*rng.choice((0.3, 0.4, 0.5))) for _ in range(m)]
                    c["radiusList"][rng.choice([x for x in range(1, m - 1) if x not in (m//2, (m - 1)//2)])] = r
                    c["raList"] = [scen.r3((c["raList"][0] + x*40.0) % 360) for x in range(m)]
                    c["decList"] = [c["decList"][0]]*m
            kinds.append((kind, s))
        out = []
        had = {}
        for (k, s), x in zip(kinds, forks.pmap(lambda a: (expect(a[1], self.maxpatches),), kinds)):
            if isinstance(x, Exception) or x[0] is None or had.get(k, 0) >= (1 if k < 4 else n - 2):
                continue
            had[k] = had.get(k, 0) + 1
            self.store.get(["expect", s], lambda: x[0])
            out.append(s)
        return out

    def admit(self, specs):
        got = forks.pmap(lambda s: (expect(s, self.maxpatches),), specs)
        return [not isinstance(x, Exception) and x[0] is not None for x in got]

    def dry(self, spec):
        """(seams, calls) of an undisturbed first registration."""
        def fn():
            self.reset(self.myslot)
            r = node.Remote(self.zyg.path("a"), "a")
            try:
                r.call("worlds.butler.connect", self.myslot, "new", 0)
                r.call("build", "m", spec)
                x = r.call("worlds.butler.register", "m", "dry", {"count": True})
                k = 0
                while x[0] == "seam":
                    k += 1
                    x = r.step(None)
                return (k, x[1][2] if x[0] is True and x[1][0] == "counted" else 200)
            finally:
                r.close()
                gone(r.pid)
        return self.store.get(["dry", spec], fn)

    def run(self, plan):
        self.reset(self.myslot)
        return RegRun(self, plan, self.myslot).go()

    def finalize(self, plan, outcome):
        p = json.loads(json.dumps(plan))
        p.pop("strategy", None)
        p["script"] = outcome["decisions"]
        return p

    def lists(self, plan):
        return [k for k in ("faults", "events", "script", "readers") if plan.get(k)]

    # -- planning ------------------------------------------------------------
    def pick(self, rng, k):
        """k scenarios, no two of which a known collision confuses."""
        js = rng.sample(self.small, k)
        if self.big and rng.random() < self.often:
            js[0] = rng.choice(self.big)
        seen = set()
        out = []
        for j in js:
            s = dict(self.specs[j])
            key = json.dumps([s["cls"].rstrip("0"), s["builder"], s["cfg"], s["bcfg"]], sort_keys=True)
            if key not in seen:
                out.append(j)
                seen.add(key)
        return out

    def a_node(self, rng):
        return {"flavour": rng.choice(sorted(node.FLAVOURS)), "how": rng.choice(("old", "old", "new")),
                "again": rng.choice(("old", "old", "new"))}

    def a_fault(self, rng, ev, j):
        seams, calls = self.size[j]
        if rng.random() < 0.3:
            return {"id": ev, "py": 1, "at": rng.randrange(max(1, calls)) if rng.random() < 0.8
                    else max(0, calls - 1 - rng.randrange(6)),
                    "kind": rng.choice(("memory", "interrupt", "wcs", "os", "crash", "crash", "value"))}
        r = rng.random()
        if r < 0.25:
            at = max(0, seams - 1 - rng.randrange(26))
        elif r < 0.4:
            at = rng.randrange(min(seams, 46))
        else:
            at = rng.randrange(seams)
        return {"id": ev, "at": at,
                "kind": rng.choice(("crash", "crash", "crash", "io", "full", "busy", "ro", "interrupt", "memory",
                                    "torn", "enospc"))}

    def mix(self, rng, j):
        evs = []
        k = 0
        for t in range(rng.choice((1, 1, 2))):
            for op in self.ask(rng, j, rng.randint(1, 4)):
                evs.append({"id": k, "t": t, "op": op})
                k += 1
        return {"events": evs, "seed": rng.randrange(1 << 30), "strategy": T.ThreadWorld.strategy(self, rng)}

    shape = {}
    often = 0.01        # runs with a big map

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        sh = self.shape
        nn = rng.choice(sh["nodes"])
        js = self.pick(rng, rng.choice(sh["maps"]))
        names = ["sim", "sim2", "SIM"][:rng.choice(sh["names"])]
        evs = []
        faults = []
        hows = ("new", "new", "restored", "copy", "deepcopy")
        for _ in range(rng.choice(sh["regs"])):
            n = rng.randrange(nn)
            s = rng.randrange(len(js))
            # mostly each map has its own name
            name = names[s % len(names)] if rng.random() < sh["agree"] else rng.choice(names)
            e = {"id": len(evs), "n": n, "s": s, "how": rng.choice(hows), "order": rng.randrange(1 << 20)}
            if rng.random() < sh["use"]:
                evs.append(dict(e, do="use", ops=self.ask(rng, js[s], rng.randint(1, 6))))
                if rng.random() < 0.3:      # registered elsewhere before, under this name or another
                    evs[-1]["ops"].append(["rows", 0, rng.choice((name, name, rng.choice(names)))])
                e = dict(e, id=len(evs))
            e.update(do="reg", name=name, retry=rng.choice(("same", "other", "restart")))
            if rng.random() < sh["mix"]:
                e["mix"] = self.mix(rng, js[s])
            evs.append(e)
            if rng.random() < sh["fault"]:
                for _ in range(rng.choice((1, 1, 1, 2))):
                    faults.append(self.a_fault(rng, e["id"], js[s]))
            if rng.random() < sh["crash"]:
                evs.append({"id": len(evs), "n": rng.randrange(nn), "do": "crash"})
        readers = [{"flavour": rng.choice(sorted(node.FLAVOURS)), "how": rng.choice(("old", "old", "new", "ro")),
                    "route": rng.choice(("args", "plain", "dims", "config")), "pick": rng.randrange(1 << 20),
                    "bands": rng.choice((None, ["r"], ["g", "r", "i"], ["y", "u", "z", "N921"])),
                    "over": rng.choice(({}, {}, {}, {"n_patches": 0}, {"n_tracts": 0}, {"n_patches": 1},
                                        {"n_tracts": 3}, {"n_patches": 7, "n_tracts": 5})),
                    "strays": [[rng.random() < 0.7, rng.choice((0, 0, -1, 1, 5, 300, 20000)),
                                rng.choice((0, 1, -1, 3, 30, 70, 1000)), rng.choice((0, 1, -2, 4, 40, 70, 1000))] for _ in range(rng.choice((0, 0, 1, 2)))]}
                   for _ in range(rng.choice(sh["readers"]))]
        for a in readers:
            if a["route"] == "plain":
                a["bands"] = None
        st = rng.choice(({"kind": "random"}, {"kind": "sticky", "p": 0.02}, {"kind": "sticky", "p": 0.15},
                         {"kind": "lockstep"}))
        return {"specs": [self.specs[j] for j in js], "nodes": [self.a_node(rng) for _ in range(nn)],
                "events": evs, "faults": faults, "strategy": st, "sched_seed": i, "readers": readers}


class C12(ButlerWorld):
    prop = "C12"
    level = "fault_enumeration"
    runs = {"quick": 500, "thorough": 20000}
    rule = ("a run is 1-3 client processes registering 1-2 maps in a scratch repository with failures of SQL statements,"
            " commits, file operations, library calls, and client deaths at seeded points; observers look at every"
            " commit, death and return; retried at the end without faults; non-trivial: a fault fired or two"
            " registrations overlapped or repeated, on a distinct execution")
    shape = {"nodes": (1, 1, 2, 2, 3), "maps": (1, 1, 2), "names": (1, 2, 2), "regs": (1, 1, 2, 2, 3), "agree": 0.95,
             "use": 0.2, "mix": 0.05, "fault": 0.9, "crash": 0.1, "readers": (1,)}
    level = "exploration"


class C13(ButlerWorld):
    prop = "C13"
    runs = {"quick": 500, "thorough": 20000}
    rule = ("a run is 2-4 client processes registering equal and different maps under equal and different names in one"
            " repository, interleaved at every SQL statement and file operation, with lock waits and time-outs,"
            " deaths and failures; non-trivial: registrations overlapped or repeated, on a distinct execution")
    shape = {"nodes": (2, 2, 3, 4), "maps": (1, 2, 2, 3), "names": (1, 2, 2, 3), "regs": (2, 3, 4, 5), "agree": 0.5,
             "use": 0.1, "mix": 0.05, "fault": 0.15, "crash": 0.1, "readers": (1,)}


class C14(ButlerWorld):
    prop = "C14"
    runs = {"quick": 400, "thorough": 15000}
    rule = ("a run is 1-2 client processes registering maps that were used, copied, restored or are in use by other"
            " threads at that moment, with occasional failures and retries, read back by 1-2 other processes and"
            " compared row by row with a fresh map; non-trivial: a registration was repeated, disturbed or overlapped,"
            " on a distinct execution")
    shape = {"nodes": (1, 2), "maps": (1, 2, 2), "names": (2, 2, 3), "regs": (1, 2, 3), "agree": 0.95, "use": 0.7,
             "mix": 0.35, "fault": 0.25, "crash": 0.1, "readers": (1, 2)}


class C16(ButlerWorld):
    prop = "C16"
    runs = {"quick": 400, "thorough": 15000}
    rule = ("a run is 1-3 client processes registering maps with conflicts, failures and retries; 1-2 other processes"
            " make packers from the record by several routes and pack and unpack every tract and patch; non-trivial: a"
            " registration was repeated, disturbed or overlapped, on a distinct execution")
    shape = {"nodes": (1, 2, 3), "maps": (1, 2, 3), "names": (2, 3), "regs": (1, 2, 3), "agree": 0.85, "use": 0.4,
             "mix": 0.15, "fault": 0.35, "crash": 0.1, "readers": (1, 2)}


WORLDS = {"C12": C12, "C13": C13, "C14": C14, "C16": C16}
