"""Simulated nodes: processes that hold sky maps and exchange saved forms.

`python -m dst.node SOCKET` is a zygote: an interpreter (with its own hash
seed and optimisation level) that has booted the package and forks one child
per connection.  The child is the node; the coordinator decides everything it
does and when it dies."""
import copy
import io
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import time

FLAVOURS = {
    "a": {"PYTHONHASHSEED": "0", "opt": False},
    "b": {"PYTHONHASHSEED": "4242", "opt": True},
    "c": {"PYTHONHASHSEED": "77", "opt": False},
}


def send(sock, obj):
    data = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(data)) + data)


def recv(sock):
    def exactly(n):
        b = bytearray()
        while len(b) < n:
            x = sock.recv(min(1 << 20, n - len(b)))
            if not x:
                raise EOFError
            b += x
        return bytes(b)
    n, = struct.unpack("<Q", exactly(8))
    return pickle.loads(exactly(n))


# -- node side -----------------------------------------------------------------
class Node:
    """What the coordinator can have a node do."""

    def __init__(self):
        self.maps = {}
        self.specs = {}
        self.packers = {}
        self.configs = {}     # handed to several maps

    def M(self, key):
        from . import ops
        M = ops.Maps([self.specs[key]])
        list.__setitem__(M, 0, self.maps[key])
        return M

    # maps
    def build(self, key, spec, order=None, how="assign"):
        from . import scen
        c = scen.make_config(spec, order)
        if how == "shared":     # one configuration object, for all maps that it describes
            c = self.configs.setdefault(repr([spec["cls"][:5], spec["builder"], spec["cfg"], spec["bcfg"]]), c)
        elif how == "string":
            d = type(c)()
            d.loadFromString(c.saveToString())
            c = d
        elif how == "pickle":
            c = pickle.loads(pickle.dumps(c))
        elif how == "deepcopy":
            c = copy.deepcopy(c)
        elif how == "inactive":     # settings of the builder that is not used
            other = "legacy" if spec["builder"] == "cells" else "cells"
            b = c.tractBuilder[other]
            q = 17 + (order or 0) % 5
            new = ({"patchBorder": q, "patchInnerDimensions": [q*10, q*11]} if other == "legacy" else
                   {"cellBorder": q, "numCellsPerPatchInner": q, "numCellsInPatchBorder": q - 14,
                    "cellInnerDimensions": [q*9, q*9]})
            for i, k in enumerate(sorted(new)):
                if (order or 0) >> 4 & 1 << i or i == (order or 0) % len(new):
                    setattr(b, k, new[k])
        elif how == "compat" and spec["builder"] == "legacy":
            c.patchBorder = spec["bcfg"]["patchBorder"]
            c.patchInnerDimensions = spec["bcfg"]["patchInnerDimensions"]
        elif how == "ints":
            for k, v in spec["cfg"].items():
                if isinstance(v, float) and v == int(v):
                    setattr(c, k, int(v))
        elif how == "default" and spec["cls"] == "rings":
            self.maps[key] = scen.class_of(spec)(c)      # the default version is the current one
            self.specs[key] = spec
            return "built"
        self.maps[key] = scen.make_map(spec, config=c)
        self.specs[key] = spec
        return "built"

    def ident(self, key):
        sm = self.maps[key]
        d = sm.getSha1()
        return (type(sm).__name__, type(d).__name__, len(d), d.hex(), len(sm))

    def swarm(self, specs, how, order):
        """Build many maps; digests, and how each compares with the first."""
        out = []
        first = None
        for s in specs:
            sm = None           # let go of it, so that the next may take its place in memory
            try:
                self.build("swarm", s, order, how)
            except Exception as e:
                out.append(("raised", type(e).__name__, str(e)[:200]))
                continue
            sm = self.maps.pop("swarm")
            first = first if first is not None else sm
            out.append((sm.getSha1().hex(), bool(sm == first), bool(first == sm), bool(sm != first),
                        hash(sm) == hash(first), len({sm, first})))
        return out

    def config(self, key):
        return repr(sorted(flat(self.maps[key].config.toDict())))

    def eq(self, k1, k2):
        a, b = self.maps[k1], self.maps[k2]
        return (bool(a == b), bool(b == a), bool(a != b), hash(a) == hash(b), len({a, b}), a in [b])

    def parts(self, k1, k2):
        """How patches and cells of two maps that are the same compare."""
        a, b = self.maps[k1], self.maps[k2]
        out = []
        for i in sorted({0, len(a)//2, len(a) - 1}):
            try:
                ta = a[i]
            except Exception:
                continue        # some configurations describe tracts that cannot be made
            tb = b[i]
            n = len(ta)
            for j in sorted({0, n//2, n - 1}) if n else ():
                p, q = ta[j], tb[j]
                ok = bool(p == q) and bool(q == p) and not bool(p != q) and repr(p) == repr(q)
                if p.getNumCells()[0] > 0:
                    c, d = p.getCellInfo(j % len(p)), q.getCellInfo(j % len(p))
                    ok = ok and bool(c == d) and not bool(c != d)
                if not ok:
                    out.append((i, j))
        return out

    def ask(self, key, ops_):
        from . import ops
        M = self.M(key)
        return [ops.run_op(M, [o[0], 0] + list(o[2:])) for o in ops_]

    def numbering(self, key):
        from . import canon as C
        sm = self.maps[key]
        try:
            return tuple((int(t.getId()), C.sp(t.getCtrCoord()), C.box(t.getBBox())) for t in sm)
        except Exception as e:      # some configurations describe tracts that cannot be made
            return ("raised", type(e).__name__)

    def save(self, key, how, proto):
        return saved(self.maps[key], how, proto)

    def busy_save(self, key, how, proto, conc):
        """Save while other threads use the map; a nested simulation."""
        from .worlds import threads as T
        M = self.M(key)
        evs = [dict(e) for e in conc["events"]]
        evs.append({"id": 9999, "t": conc["saver"], "op": ["save", 0]})
        plan = {"specs": [self.specs[key]], "events": evs, "sched_seed": conc["seed"], "max_steps": 4_000_000}
        if "script" in conc:
            plan["script"] = conc["script"]
        else:
            plan["strategy"] = conc["strategy"]
        plan["opcodes"] = conc.get("opcodes", False)

        def impl(M, op):
            if op[0] == "save":
                return saved(M[0], how, proto)
            return T.plain(M, op)
        r = T.execute(plan, impl=impl, maps=M)
        from . import sched
        sched.set_events(False, False)
        return r

    def load(self, key, blob, spec):
        obj = restored(blob)
        self.maps[key] = obj
        self.specs[key] = spec
        return type(obj).__name__

    def copy(self, key, key2, how):
        self.maps[key2] = copy.copy(self.maps[key]) if how == "copy" else copy.deepcopy(self.maps[key])
        self.specs[key2] = self.specs[key]
        return "copied"

    def forge(self, spec, form, version, proto):
        """A saved form as another release writes it, built by hand."""
        import copyreg
        from . import scen
        cls = scen.class_of(spec)
        c = scen.make_config(spec)
        c.freeze()
        if isinstance(version, list):
            version = tuple(version)

        class Forged:
            def __reduce__(self):
                if form == "args":
                    return (cls, (c, version))
                return (copyreg._reconstructor, (cls, object, None), {"version": version, "config": c})
        return pickle.dumps(("pickle", Forged()), protocol=proto)

    def drop(self, key):
        self.maps.pop(key, None)
        return "dropped"

    def ping(self):
        return (sys.flags.hash_randomization, sys.flags.optimize)


def flat(d, pre=""):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += flat(v, pre + k + ".")
        else:
            out.append((pre + k, repr(list(v) if isinstance(v, (list, tuple)) or type(v).__name__ == "List" else v)))
    return out


def saved(sm, how, proto):
    if how == "twice":
        return pickle.dumps(("twice", [sm, sm]), protocol=proto)
    if how == "pypickle":
        f = io.BytesIO()
        pickle._Pickler(f, protocol=proto).dump(("pickle", sm))
        return f.getvalue()
    if how == "withconfig":
        return pickle.dumps(("withconfig", sm.config, sm), protocol=proto)
    return pickle.dumps(("pickle", sm), protocol=proto)


class BadBlob(Exception):
    pass


def restored(blob):
    r = pickle.loads(blob)
    if r[0] == "twice":
        if r[1][0] is not r[1][1]:
            raise BadBlob("one map came back as two")
        return r[1][0]
    return r[-1]


def serve(sock):
    node = Node()
    node.sock = sock
    send(sock, os.getpid())
    while True:
        try:
            name, args = recv(sock)
        except (EOFError, OSError):
            return
        try:
            if "." in name:
                import importlib
                mod, fn = name.rsplit(".", 1)
                out = (True, getattr(importlib.import_module("dst." + mod), fn)(node, *args))
            else:
                out = (True, getattr(node, name)(*args))
        except BaseException as e:
            out = (False, type(e).__name__, str(e)[:300])
        send(sock, out)


def zygote(path, slots=()):
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    from . import bootstrap
    bootstrap.boot()
    import importlib
    for m in ("ops", "scen", "worlds.threads", "worlds.packers"):
        try:
            importlib.import_module("dst." + m)
        except ModuleNotFoundError:
            pass
    from .ops import FakeButler
    FakeButler().dimensions     # built once, for all nodes
    if slots:
        from .worlds import butler
        butler.preopen(slots)
    import gc
    gc.collect()
    gc.freeze()
    ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    ls.bind(path + ".tmp")
    ls.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        r, _, _ = select.select([ls, sys.stdin], [], [])
        if sys.stdin in r:
            os._exit(0)     # the coordinator is gone
        c, _ = ls.accept()
        if os.fork() == 0:
            ls.close()
            code = 0
            try:
                serve(c)
            except BaseException:
                code = 1
            os._exit(code)
        c.close()


# -- coordinator side ------------------------------------------------------------
class Zygotes:
    """Starts the interpreters nodes are forked from (once per check)."""

    def __init__(self, scratch, slots=()):
        self.scratch = scratch
        self.slots = list(slots)
        self.procs = {}

    def start(self, wait=True):
        from . import bootstrap
        for name, f in FLAVOURS.items():
            if name in self.procs:
                continue
            env = dict(os.environ, PYTHONHASHSEED=f["PYTHONHASHSEED"])
            cmd = [sys.executable] + (["-O"] if f["opt"] else []) + ["-m", "dst.node", self.path(name)] + self.slots
            self.procs[name] = subprocess.Popen(cmd, stdin=subprocess.PIPE, cwd=bootstrap.VERIF, env=env)
        if wait:
            end = time.monotonic() + 90
            for name, p in self.procs.items():
                while not os.path.exists(self.path(name)):
                    if p.poll() is not None or time.monotonic() > end:
                        raise RuntimeError("node interpreter %r did not start" % name)
                    time.sleep(0.02)

    def path(self, name):
        return os.path.join(self.scratch, "zyg-" + name)

    def stop(self):
        for p in self.procs.values():
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs.values():
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()


class NodeDied(Exception):
    pass


class Remote:
    """A running node, as the coordinator sees it."""

    def __init__(self, path, flavour):
        self.flavour = flavour
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.settimeout(120)
        self.sock.connect(path)
        self.pid = recv(self.sock)

    def call(self, name, *args):
        """(True, value) or (False, type, message)."""
        try:
            send(self.sock, (name, args))
            return recv(self.sock)
        except (EOFError, OSError) as e:
            raise NodeDied(repr(e))

    def step(self, reply):
        """Let a node stopped at a seam go on."""
        try:
            send(self.sock, reply)
            return recv(self.sock)
        except (EOFError, OSError) as e:
            raise NodeDied(repr(e))

    def crash(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.sock.close()

    close = crash


if __name__ == "__main__":
    zygote(sys.argv[1], sys.argv[2:])
