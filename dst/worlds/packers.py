"""Nodes exchanging packed data IDs (C15).

The model is the reservation itself: which (tract, patch, band) exist, and the
table of integers seen so far.  Every node configures its packer by its own
route; integers travel in any order, by threads too, with crashes between."""
import hashlib
import json
import pickle
import random

from .. import core, node
from . import threads as T
from .cluster import ClusterWorld, Net

BANDS = ["u", "g", "r", "i", "z", "y", "N540", "clear", "white", "Y", "J", "K", "a", "b", "c", "F158"]


# -- node side ----------------------------------------------------------------
def universe():
    from ..ops import FakeButler
    return FakeButler().dimensions


def fixed_id(cfg, records):
    from lsst.daf.butler import DataCoordinate
    u = universe()
    d = DataCoordinate.standardize(skymap=cfg["skymap"], universe=u)
    if not records:
        return d
    rec = u["skymap"].RecordClass(skymap=cfg["skymap"], hash=b"\1"*20, tract_max=cfg["n_tracts"],
                                  patch_nx_max=cfg["nx"], patch_ny_max=cfg["ny"])
    return d.expanded({"skymap": rec})


def task_config():
    """A task's config with a packer field, importable by name."""
    if "Task" not in globals():
        from lsst.pex.config import Config
        from lsst.skymap.packers import SkyMapDimensionPacker
        Task = type(Config)("Task", (Config,), {"packer": SkyMapDimensionPacker.make_config_field(),
                                                "__module__": __name__})
        globals()["Task"] = Task
    return globals()["Task"]


def make(nd, key, cfg, route, order):
    """Configure a packer."""
    from lsst.skymap.packers import SkyMapDimensionPacker, SkyMapDimensionPackerConfig
    rng = random.Random(order)
    bands = cfg["bands"]
    if bands is not None:
        items = list(bands.items())
        rng.shuffle(items)
        bands = dict(items)
    rec = "record" in route
    fixed = fixed_id(cfg, rec or rng.random() < 0.3)
    nt = None if rec else cfg["n_tracts"]
    np_ = None if rec else cfg["nx"]*cfg["ny"]
    if route.startswith("args"):
        kw = dict(bands=bands, n_bands=cfg["n_bands"], n_tracts=nt, n_patches=np_)
        if "dims" in route:
            names = ["tract", "patch"] + (["band"] if cfg["has_band"] or "banddims" in route else [])
            kw["dimensions"] = universe().conform(names)
        p = SkyMapDimensionPacker(fixed, **kw)
        given = None
    else:
        def fill(c):
            c.bands = bands
            c.n_bands = cfg["n_bands"]
            c.n_tracts = nt
            c.n_patches = np_
        if "field" in route:
            Task = task_config()
            c = Task()
            fill(c.packer)
            if "saved" in route:
                d = Task()
                d.loadFromString(c.saveToString())
                c = d
            p = c.packer.apply(fixed)
            given = c.packer.value
        else:
            c = SkyMapDimensionPackerConfig()
            fill(c)
            if "saved" in route:
                d = SkyMapDimensionPackerConfig()
                d.loadFromString(c.saveToString())
                c = d
            elif "pickled" in route:
                c = pickle.loads(pickle.dumps(c))
            p = SkyMapDimensionPacker.from_config(fixed, c)
            given = c
    nd.packers[key] = (p, cfg)
    nd.__dict__.setdefault("given", {})[key] = (bands, given)
    return (int(p.maxBits), sorted(p.dimensions.names))


def meddle(nd, key, order):
    """The caller goes on using the mapping, or the config, that it configured a packer with."""
    rng = random.Random(order)
    bands, c = nd.given[key]
    if c is not None:
        for k in ("n_tracts", "n_patches", "n_bands"):
            if rng.random() < 0.3:
                setattr(c, k, rng.choice((None, 1, 3, 50)))
        bands = c.bands
    if bands is not None:
        names = sorted(bands)
        r = rng.random() if bands else 1.0
        if r < 0.5:
            vals = [bands[b] for b in names]
            rng.shuffle(vals)
            for b, v in zip(names, vals):
                bands[b] = v
        elif r < 0.8:
            bands[rng.choice(names)] += rng.choice((1, 7))
        else:
            bands[rng.choice([b for b in BANDS if b not in bands])] = rng.randrange(9)
    return bands is not None or c is not None


def doubtful(nd, key, cfg, order):
    """Packing bands, and no room reserved for them."""
    make(nd, key, cfg, "args banddims", order)
    p = nd.packers.pop(key)[0]
    out = []
    for b in cfg["bands"] or ("g", "r", "y"):
        try:
            v = int(p.pack(tract=0, patch=0, skymap=cfg["skymap"], band=b))
        except ValueError:
            continue
        try:
            back = p.unpack(v)["band"]
        except Exception as e:
            back = type(e).__name__
        out.append((b, v, back))
    return out


def do(packer, cfg, op):
    from lsst.daf.butler import DataCoordinate
    if op[0] == "pack":
        d = dict(op[1], skymap=cfg["skymap"])
        if op[2] == "coord":
            dims = universe().conform(["tract", "patch"] + (["band"] if "band" in d else []))
            return int(packer.pack(DataCoordinate.standardize(d, dimensions=dims)))
        if op[2] == "kwargs":
            return int(packer.pack(tract=d["tract"], patch=d["patch"], skymap=d["skymap"],
                                   **({"band": d["band"]} if "band" in d else {})))
        if op[2] == "bits":
            v, b = packer.pack(d, returnMaxBits=True)
            return int(v)
        return int(packer.pack(d))
    if op[0] == "bits":
        return int(packer.maxBits)
    r = packer.unpack(op[1])
    return tuple(sorted((k, r[k]) for k in packer.dimensions.required))


def act(nd, key, op):
    p, cfg = nd.packers[key]
    return do(p, cfg, op)


class Shared:
    def __init__(self, nd):
        self.packers = nd.packers

    def build(self):
        pass

    def doubles(self):
        return []


def busy(nd, conc):
    """Several threads of one node share its packers."""
    plan = {"specs": [], "events": conc["events"], "sched_seed": conc["seed"], "max_steps": 2_000_000,
            "opcodes": conc["opcodes"]}
    if "script" in conc:
        plan["script"] = conc["script"]
    else:
        plan["strategy"] = conc["strategy"]
    r = T.execute(plan, impl=lambda M, op: do(*M.packers[op[0]], op[1:]), maps=Shared(nd))
    from .. import sched
    sched.set_events(False, False)
    return r


# -- coordinator ------------------------------------------------------------------
ROUTES = ("args", "args dims", "args record", "args dims record", "config", "config saved", "config pickled",
          "config record", "config saved record", "config field", "config field saved", "config field record",
          "config field saved record")


class C15(ClusterWorld):
    prop = "C15"
    runs = {"quick": 1500, "thorough": 60000}
    real = ("lsst.skymap.packers", "lsst.daf.butler (DimensionPacker, DataCoordinate, DimensionUniverse)",
            "lsst.pex.config", "separate interpreter processes as nodes")
    stubs = ("network, durable storage and node life cycle (simulated)",)
    rule = ("a run is 2-4 nodes, each configuring an equivalent packer by its own route (arguments, configs, saved"
            " configs, records, band mappings in any order and with gaps), packing and unpacking each other's"
            " integers as a lossy, duplicating, reordering network delivers them, from several threads, with"
            " callers that go on modifying the configuration they gave, crashes and reconfiguration; non-trivial: an integer packed elsewhere was unpacked, on a distinct"
            " execution")
    assumptions = ("band mappings give distinct integers to distinct bands",)

    def prepare(self):
        self.zyg = node.Zygotes(self.scratch)
        self.zyg.start()

    def reservation(self, rng):
        r = rng.random()
        nt = rng.choice((1, 2, 5, 12, 100, 4096, 18938, 1 << 20))
        nx, ny = rng.choice(((1, 1), (2, 1), (3, 4), (7, 7), (9, 9), (64, 3)))
        if r < 0.25:
            bands, n_bands = None, rng.choice((None, None, 0, 1, 4, 7, 27, 40))
        else:
            names = rng.sample(BANDS, rng.choice((rng.randint(1, 7), rng.randint(1, 7), rng.randint(8, len(BANDS) - 1))))
            style = rng.random()
            if style < 0.4:
                vals = list(range(len(names)))
                rng.shuffle(vals)
            else:
                vals = rng.sample(range(rng.choice((len(names), len(names) + 3, 40))), len(names))
            if rng.random() < 0.1:      # a band mapped outside [0, n_bands) is not reserved
                vals[rng.randrange(len(vals))] = -rng.choice((1, 1, 2, 5, 100))
            if rng.random() < 0.06:     # no band is supported
                names, vals = [], []
            bands = dict(zip(names, vals))
            n_bands = rng.choice((None, None, 0, 1, max([0] + vals) + 1, max([0] + vals) + 1, max([0] + vals) + 5, len(names),
                                  max([1] + vals)))
        if rng.random() < 0.12:     # very large ones, at the change of the number of bits
            nt = (1 << rng.randint(20, 61)) + rng.choice((-1, 0, 1, 1))
            if rng.random() < 0.7:
                nx = ny = 1
                n_bands = rng.choice((0, 1, 2))
        return {"bands": bands, "n_bands": n_bands, "n_tracts": nt, "nx": nx, "ny": ny,
                "has_band": self.has_band(bands, n_bands),
                "skymap": "sim"}

    @staticmethod
    def has_band(bands, n_bands):
        return n_bands != 0 and not (n_bands is None and bands == {})

    def relative(self, rng, cfg):
        """A reservation that differs from another in one respect."""
        c = json.loads(json.dumps(cfg))
        way = rng.choice(("values", "values", "gap", "names", "n_bands", "n_tracts", "grid", "shape", "skymap",
                          "default"))
        b = c["bands"]
        if way == "values" and b is not None and len(b) > 1:
            vals = list(b.values())
            rng.shuffle(vals)
            c["bands"] = dict(zip(b, vals))
        elif way == "gap" and b:
            k = rng.choice(sorted(b))
            b[k] = max(b.values()) + rng.choice((1, 2))
        elif way == "names" and b:
            k = rng.choice(sorted(b))
            c["bands"] = {(rng.choice([x for x in BANDS if x not in b]) if n == k else n): v for n, v in b.items()}
        elif way == "n_bands":
            c["n_bands"] = rng.choice((None, 0, 1, 5, 30, 41))
        elif way == "n_tracts":
            c["n_tracts"] += rng.choice((1, 3))
        elif way == "grid":
            c["nx"] += 1
        elif way == "shape":
            c["nx"], c["ny"] = c["ny"], c["nx"]
        elif way == "default":
            c["bands"] = None
        else:
            c["skymap"] = "sim2"
        c["has_band"] = self.has_band(c["bands"], c["n_bands"])
        return c

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        cfgs = [self.reservation(rng)]
        while len(cfgs) < 3 and rng.random() < 0.4:     # more packers in the same processes
            cfgs.append(self.relative(rng, rng.choice(cfgs)) if rng.random() < 0.8 else self.reservation(rng))
        nk = len(cfgs)
        nn = rng.randint(2, 4)
        nodes = [rng.choice(sorted(node.FLAVOURS)) for _ in range(nn)]
        net = Net(rng, nn)
        makes = [(n, k) for n in range(nn) for k in range(nk)]
        rng.shuffle(makes)
        for n, k in makes:
            net.emit("make", n, k, rng.choice(ROUTES), rng.randrange(1 << 20))
        seq = [0]
        wide = rng.random() < 0.5
        sent = {}        # message -> packer

        def data_id(cfg):
            nt, np_ = cfg["n_tracts"], cfg["nx"]*cfg["ny"]
            bands = cfg["bands"]
            # keep to few values, so that collisions and edges are met
            ts = (0, nt - 1, nt//2, rng.randrange(nt)) if wide else (nt - 1, 0)
            ps = (0, np_ - 1, rng.randrange(np_))
            t, p = rng.choice(ts), rng.choice(ps)
            q = rng.random()
            if q < 0.06:
                t = rng.choice((nt, nt + 1, -1, -nt, nt + 7))
            elif q < 0.12:
                p = rng.choice((np_, np_ + 1, -1, -2, np_*2))
            d = {"tract": t, "patch": p}
            if cfg["has_band"] or rng.random() < 0.15:
                pool = list(bands) if bands is not None else self.default_bands()[1:]
                d["band"] = rng.choice(pool) if pool and rng.random() < 0.9 else rng.choice(BANDS + ["nope"])
            return d
        for _ in range(rng.randint(8, 30)):
            net.advance(rng.expovariate(1/30.0))
            r = rng.random()
            n = rng.randrange(nn)
            k = rng.randrange(nk)
            if r < 0.66:
                seq[0] += 1
                sent[seq[0]] = k
                net.emit("pack", n, k, seq[0], data_id(cfgs[k]), rng.choice(("coord", "dict", "kwargs", "bits")))
                for _ in range(rng.choice((1, 1, 2))):
                    net.send("unpack", rng.randrange(nn), seq[0])
            elif r < 0.80 and seq[0]:
                nth = rng.choice((2, 3))
                evs = []
                for t in range(nth):
                    for _ in range(rng.randint(1, 4)):
                        if rng.random() < 0.5:
                            k = rng.randrange(nk)
                            op = ["pack", data_id(cfgs[k]), rng.choice(("coord", "dict", "kwargs"))]
                        else:
                            op = ["unpack", rng.randint(1, seq[0])]      # by message number
                            k = sent[op[1]]
                        evs.append({"id": len(evs), "t": t, "key": k, "op": op})
                net.emit("busy", n, {"events": evs, "seed": rng.randrange(1 << 30), "opcodes": rng.random() < 0.3,
                                     "strategy": T.ThreadWorld.strategy(self, rng)})
            elif r < 0.84:
                net.emit("make", n, k, rng.choice(ROUTES), rng.randrange(1 << 20))
            elif r < 0.92:
                net.emit("meddle" if cfgs[k]["has_band"] or rng.random() < 0.3 else "doubtful", n, k,
                         rng.randrange(1 << 20))
            else:
                net.emit("crash", n, rng.choice(sorted(node.FLAVOURS)))
                for k in rng.sample(range(nk), nk):
                    net.emit("make", n, k, rng.choice(ROUTES), rng.randrange(1 << 20))
        net.drain()
        for n in range(nn):
            net.emit("all", n)
        return {"cfgs": cfgs, "nodes": nodes, "events": net.events, "network": net.count}

    def default_bands(self):
        # the documented fixed list (the model's own copy)
        return [None] + list("ugrizyUBGVRIZYJHK") + ["N%d" % d for d in (387, 515, 656, 816, 921, 1010, 419, 540,
                                                                          708, 964)]

    def run(self, plan):
        out = PackRun(self, plan).go()
        for k, v in plan.get("network", {}).items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        return out

    def finalize(self, plan, outcome):
        p = json.loads(json.dumps(plan))
        for k, ev in enumerate(p["events"]):
            if ev[1] == "busy" and k in outcome["conc"]:
                ev[3].pop("strategy", None)
                ev[3]["script"] = outcome["conc"][k]
        return p


class Reservation:
    """The model of a packer: what exists, and every integer seen so far."""

    def __init__(self, cfg, default):
        self.cfg = c = cfg
        self.table = {}      # data id -> integer
        self.back = {}
        self.bands = c["bands"] if c["bands"] is not None else {
            b: i for i, b in enumerate(default) if b is not None}
        self.nb = c["n_bands"]
        if self.nb is None:
            self.nb = len(c["bands"]) if c["bands"] is not None else len(default)
        self.size = c["n_tracts"]*c["nx"]*c["ny"]*max(1, self.nb)
        self.maxbits = (self.size - 1).bit_length()

    def ok(self, d):
        c = self.cfg
        return (0 <= d["tract"] < c["n_tracts"] and 0 <= d["patch"] < c["nx"]*c["ny"]
                and (not self.nb or (d["band"] in self.bands and 0 <= self.bands[d["band"]] < self.nb)))

    def ident(self, d):
        return tuple(sorted([("skymap", self.cfg["skymap"]), ("tract", d["tract"]), ("patch", d["patch"])]
                            + ([("band", d["band"])] if self.nb else [])))


class PackRun:
    def __init__(self, world, plan):
        self.w = world
        self.plan = plan
        self.nodes = []
        self.msgs = {}       # message -> (packer, integer, data id)
        self.res = [Reservation(c, world.default_bands()) for c in plan["cfgs"]]
        self.vio = []
        self.h = hashlib.sha1()
        self.faults = {}
        self.stats = {}
        self.conc = {}
        self.config = {}     # node, packer -> route
        self.live = {}       # node, packer -> bits
        self.steps = 0

    bump = staticmethod(lambda d, k, n=1: d.__setitem__(k, d.get(k, 0) + n))

    def bad(self, sig, msg, *a):
        self.vio.append({"sig": sig, "msg": "event %d: %s" % (self.at, msg % a if a else msg)})

    def go(self):
        try:
            for f in self.plan["nodes"]:
                self.nodes.append(node.Remote(self.w.zyg.path(f), f))
            for self.at, ev in enumerate(self.plan["events"]):
                self.steps += 1
                getattr(self, "e_" + ev[1])(*ev[2:])
        finally:
            for n in self.nodes:
                n.close()
        return {"violations": self.vio, "steps": self.steps, "faults": self.faults, "trace": self.h.hexdigest(),
                "nontrivial": self.stats.get("unpacked", 0) > 0, "conc": self.conc,
                "stats": dict(self.stats, simulated_ms=int(self.plan["events"][-1][0]) if self.plan["events"] else 0)}

    def call(self, n, fn, *a):
        try:
            r = self.nodes[n].call("worlds.packers." + fn, *a)
        except node.NodeDied as e:
            raise core.HarnessError("node died in %s: %s" % (fn, e))
        self.h.update(("%d %s %r" % (n, fn, r if r[0] else r[:2])).encode())
        return r

    def e_make(self, n, k, route, order):
        res = self.res[k]
        self.config[n, k] = (route, order)
        r = self.call(n, "make", k, res.cfg, route, order)
        if not r[0]:
            self.bad("configuring raised", "node %d: configuring packer %d by %r raised %s", n, k, route, r[1:])
            return
        bits, dims = r[1]
        if bits < res.maxbits:
            self.bad("bits", "node %d: a reservation of %d IDs is advertised as %d bits", n, res.size, bits)
        self.live[n, k] = bits
        want = sorted(["skymap", "tract", "patch"] + (["band"] if res.nb else []))
        if dims != want:
            self.bad("dimensions", "node %d: packer configured by %r packs %s, not %s", n, route, dims, want)
        others = {b for (_, kk), b in self.live.items() if k == kk}
        if len(others) > 1:
            self.bad("bits differ", "equivalently configured packers advertise %s bits", sorted(others))
        self.bump(self.stats, "route " + route)

    def e_meddle(self, n, k, order):
        if (n, k) not in self.live:
            return
        r = self.call(n, "meddle", k, order)
        if r[0] and r[1]:
            self.bump(self.faults, "caller_modified_configuration")

    def e_doubtful(self, n, k, order):
        res = self.res[k]
        if res.nb:
            return
        r = self.call(n, "doubtful", "doubtful", res.cfg, order)
        if not r[0]:
            if r[1] != "ValueError":
                self.bad("wrong error", "node %d: a packer of bands with no room for them raised %s", n, r[1:])
            self.bump(self.stats, "refused_without_room")
            return
        seen = {}
        for b, v, back in r[1]:
            if back != b or seen.setdefault(v, b) != b:
                self.bad("collision", "node %d: with no room for bands, band %r packs to %s, which is %r", n, b, v,
                         back if back != b else seen[v])
                return

    def judge_pack(self, n, k, d, r, where=""):
        """r: (True, integer) or (False, type, message)."""
        res = self.res[k]
        if not res.ok(d):
            self.bump(self.stats, "out_of_range")
            if r[0]:
                self.bad("accepted out of range", "node %d%s: packing %s, outside the reservation, gave %s", n, where,
                         d, r[1])
            elif r[1] != "ValueError":
                self.bad("wrong error", "node %d%s: packing %s, outside the reservation, raised %s: %s", n, where, d,
                         r[1], r[2])
            return None
        if not r[0]:
            self.bad("pack raised", "node %d%s: packing %s raised %s: %s", n, where, d, r[1], r[2])
            return None
        v = r[1]
        i = res.ident(d)
        self.bump(self.stats, "packed")
        if res.table.setdefault(i, v) != v:
            self.bad("packs differ", "node %d%s (%s): %s packs to %s here and to %s elsewhere", n, where,
                     self.config.get((n, k)), d, v, res.table[i])
        if res.back.setdefault(v, i) != i:
            self.bad("collision", "node %d%s: %s packs to %s, which is already %s", n, where, d, v, res.back[v])
        if not 0 <= v < 1 << self.live.get((n, k), 64):
            self.bad("does not fit", "node %d%s: %s packs to %s, not in %s bits", n, where, d, v,
                     self.live.get((n, k)))
        return v

    def judge_unpack(self, n, k, v, d, r, where=""):
        self.bump(self.stats, "unpacked")
        if not r[0]:
            self.bad("unpack raised", "node %d%s (%s): unpacking %s, packed from %s, raised %s: %s", n, where,
                     self.config.get((n, k)), v, d, r[1], r[2])
            return
        if tuple(map(tuple, r[1])) != self.res[k].ident(d):
            self.bad("unpack differs", "node %d%s (%s): %s was packed from %s but unpacks to %s", n, where,
                     self.config.get((n, k)), v, d, dict(r[1]))

    def send_form(self, k, op):
        """A coordinate carries no band that the packer does not know."""
        if op[0] == "pack" and self.res[k].nb == 0 and op[2] == "coord":
            return ["pack", {x: v for x, v in op[1].items() if x != "band"}, "coord"]
        return op

    def e_pack(self, n, k, msg, d, form):
        if (n, k) not in self.live:
            return
        op = self.send_form(k, ["pack", d, form])
        v = self.judge_pack(n, k, op[1], self.call(n, "act", k, op))
        if v is not None:
            self.msgs[msg] = (k, v, op[1])

    def e_unpack(self, n, msg):
        if msg not in self.msgs:
            return
        k, v, d = self.msgs[msg]
        if (n, k) in self.live:
            self.judge_unpack(n, k, v, d, self.call(n, "act", k, ["unpack", v]))

    def e_all(self, n):
        for m in sorted(self.msgs):
            self.e_unpack(n, m)

    def e_busy(self, n, conc):
        evs = []
        nums = {}
        for e in conc["events"]:
            if (n, e["key"]) not in self.live:
                continue
            op = self.send_form(e["key"], e["op"])
            if op[0] == "unpack":
                if op[1] not in self.msgs:
                    continue
                nums[e["id"]] = self.msgs[op[1]]
                op = ["unpack", self.msgs[op[1]][1]]
            evs.append(dict(e, op=[e["key"]] + op))
        if not evs:
            return
        r = self.nodes[n].call("worlds.packers.busy", dict(conc, events=evs))
        if not r[0]:
            raise core.HarnessError("busy: %r" % (r,))
        r = r[1]
        self.conc[self.at] = r["decisions"]
        self.h.update(r["trace"].encode())
        self.steps += r["steps"]
        self.bump(self.stats, "context_switches", r["switches"])
        if r["stop"] is not None:
            if not r["stop"].startswith("given up"):
                self.bad("no-progress", "threads sharing a packer: %s", r["stop"])
            return
        for e in evs:
            a = r["answers"].get(e["id"])
            res = (False,) + tuple(a[1:3]) if isinstance(a, tuple) and a[:1] == ("raised",) else (True, a)
            self.h.update(repr(res[:2]).encode())
            if e["id"] in nums:
                self.judge_unpack(n, *nums[e["id"]], res, " (threads)")
            else:
                self.judge_pack(n, e["key"], e["op"][2], res, " (threads)")

    def e_crash(self, n, flavour):
        self.nodes[n].crash()
        self.nodes[n] = node.Remote(self.w.zyg.path(flavour), flavour)
        for x in [x for x in self.live if x[0] == n]:
            del self.live[x]
        self.bump(self.faults, "crash_restart")


WORLDS = {"C15": C15}
