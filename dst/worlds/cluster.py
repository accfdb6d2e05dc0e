"""A cluster of nodes exchanging saved sky maps (C04, C05, C06).

Nodes are separate processes with different hash seeds and optimisation
levels.  The coordinator simulates the network (delay, loss with
retransmission, duplication, reordering), durable storage (saved forms survive
a crash, possibly cut short) and crashes; it knows which specification every
map came from, which is the reference model."""
import hashlib
import heapq
import json
import math
import random

from .. import core, node, ops, scen
from . import threads as T


def ident_key(spec):
    """What defines the identity: class (version is part of it) and settings."""
    return json.dumps([spec["cls"], spec.get("sub", False), spec["builder"], sorted(spec["cfg"].items()), sorted(spec["bcfg"].items())])


class Net:
    """Plan-time discrete-event simulation producing an ordered event list."""

    def __init__(self, rng, nodes):
        self.rng = rng
        self.t = 0.0
        self.q = []
        self.n = 0
        self.events = []
        self.count = {}

    def bump(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def emit(self, *ev):
        self.events.append([round(self.t, 3)] + list(ev))

    def later(self, dt, *ev):
        self.n += 1
        heapq.heappush(self.q, (self.t + dt, self.n, ev))

    def send(self, *ev):
        """A message: delayed, maybe lost and retransmitted, maybe duplicated."""
        rng = self.rng
        d = rng.expovariate(1/40.0)
        while rng.random() < 0.15:
            self.bump("message_lost")
            d += 200.0
        self.later(d, *ev)
        if rng.random() < 0.15:
            self.bump("message_duplicated")
            self.later(d + rng.expovariate(1/100.0), *ev)

    def advance(self, dt):
        """Let dt ms pass, delivering what arrives."""
        end = self.t + dt
        while self.q and self.q[0][0] <= end:
            t, _, ev = heapq.heappop(self.q)
            self.t = t
            self.emit(*ev)
        self.t = end

    def drain(self):
        while self.q:
            t, _, ev = heapq.heappop(self.q)
            self.t = t
            self.emit(*ev)


class Run:
    """The coordinator of one run; also the model."""

    def __init__(self, world, plan):
        self.w = world
        self.plan = plan
        self.nodes = []
        self.maps = {}        # (node, key) -> spec number
        self.blobs = {}       # name -> (bytes, spec number or None, why it must be refused)
        self.vio = []
        self.h = hashlib.sha1()
        self.faults = {}
        self.stats = {}
        self.conc = {}
        self.cfg = {}         # (node, key) -> configuration in full, as built
        self.digests = {}     # hex -> identity
        self.byident = {}     # identity -> hex
        self.steps = 0

    def bump(self, d, k, n=1):
        d[k] = d.get(k, 0) + n

    def bad(self, sig, msg, *a):
        self.vio.append({"sig": sig, "msg": "event %d: " % self.at + (msg % a if a else msg)})

    def start(self, i, flavour):
        r = node.Remote(self.w.zyg.path(flavour), flavour)
        if i < len(self.nodes):
            self.nodes[i] = r
        else:
            self.nodes.append(r)

    def go(self):
        try:
            for i, f in enumerate(self.plan["nodes"]):
                self.start(i, f)
            self.at = 0
            for self.at, ev in enumerate(self.plan["events"]):
                self.steps += 1
                getattr(self, "e_" + ev[1])(*ev[2:])
        finally:
            for n in self.nodes:
                n.close()
        return {"violations": self.vio, "steps": self.steps, "faults": self.faults, "trace": self.h.hexdigest(),
                "nontrivial": self.stats.get("restored", 0) + self.stats.get("compared", 0)
                + self.stats.get("refused", 0) > 0,
                "stats": dict(self.stats, simulated_ms=int(self.plan["events"][-1][0]) if self.plan["events"] else 0),
                "conc": self.conc}

    def spec(self, s):
        if s >= len(self.plan["specs"]):
            return self.swarms[s]
        return self.plan["specs"][s]

    def call(self, n, *a):
        try:
            r = self.nodes[n].call(*a)
        except node.NodeDied as e:
            raise core.HarnessError("node died in %s: %s" % (a[0], e))
        self.h.update(("%d %s %r" % (n, a[0], r if r[0] else r[:2])).encode())
        return r

    # -- events -----------------------------------------------------------------
    def e_build(self, n, key, s, order, how):
        r = self.call(n, "build", key, self.spec(s), order, how)
        if not r[0]:
            if self.plan.get("may_not_build") and self.may_fail(s):
                self.bump(self.stats, "unbuildable")
                return
            self.bad("build raised", "node %d cannot build %s: %s", n, self.spec(s)["cls"], r[1:])
            return
        self.maps[n, key] = s
        r = self.call(n, "config", key)
        self.cfg[n, key] = r[1] if r[0] else None
        self.bump(self.stats, "built")

    def may_fail(self, s):
        """A perturbed configuration need not describe a map at all."""
        if s in self.w.unbuildable:
            return True
        sp = self.spec(s)
        try:
            from .. import forks

            def t():
                try:
                    scen.make_map(sp)
                    return False
                except Exception:
                    return True
            return forks.call(t)
        except Exception:
            return True

    def e_use(self, n, key, which):
        s = self.maps.get((n, key))
        if s is None:
            return
        r = self.call(n, "ask", key, which)
        if not r[0]:
            self.bad("query raised", "node %d: queries raised %s", n, r[1:])
            return
        for op, got in zip(which, r[1]):
            want = self.w.golden(self.plan["specs"], [op[0], s] + list(op[2:]))[0]
            got, want = T.clean(T.tup(got)), T.tup(want)
            self.bump(self.stats, "answers")
            if got != want:
                self.bad("%s differs" % op[0], "node %d, map %s (%s): %s%r: %s", n, key, self.spec(s)["cls"], op[0],
                         tuple(op[2:]), T.diff(got, want))

    def whole(self, n, key, s, cfg):
        """Everything about a restored map is the original's."""
        spec = self.spec(s)
        want = dict(self.w.profile(spec))
        if cfg is not None:
            want["config"] = cfg
        self.cfg[n, key] = want["config"]
        for name in want:
            r = self.call(n, name, key)
            if not r[0]:
                self.bad("restored %s raised" % name, "node %d: %s of the restored map raised %s", n, name, r[1:])
                continue
            got, w = T.tup(r[1]), T.tup(want[name])
            if got != w:
                self.bad("restored %s differs" % name, "node %d: restored %s (version %s): %s: %s", n, spec["cls"],
                         spec["version"], name, T.diff(got, w))

    def e_save(self, n, key, blob, how, proto, conc=None, cut=None):
        s = self.maps.get((n, key))
        if s is None:
            return
        if conc is None:
            r = self.call(n, "save", key, how, proto)
            if not r[0]:
                self.bad("save raised", "node %d: saving %s raised %s", n, self.spec(s)["cls"], r[1:])
                return
            data = r[1]
        else:
            r = self.nodes[n].call("busy_save", key, how, proto, conc)
            if not r[0]:
                raise core.HarnessError("busy_save: %r" % (r,))
            r = r[1]
            self.conc[blob] = r["decisions"]
            self.h.update(r["trace"].encode())
            self.steps += r["steps"]
            self.bump(self.stats, "concurrent_saves")
            if r["stop"] is not None:
                if not r["stop"].startswith("given up"):
                    self.bad("no-progress", "saving under use was called off: %s", r["stop"])
                return
            for e in conc["events"]:
                got = T.clean(T.tup(r["answers"].get(e["id"])))
                want = T.tup(self.w.golden(self.plan["specs"], [e["op"][0], s] + list(e["op"][2:]))[0])
                if got != want:
                    self.bad("%s differs" % e["op"][0], "node %d, while saving: %s%r: %s", n, e["op"][0],
                             tuple(e["op"][2:]), T.diff(got, want))
            data = r["answers"][9999]
            if not isinstance(data, bytes):
                self.bad("save raised", "node %d: saving %s while it is used gave %s", n, self.spec(s)["cls"],
                         T.short(data))
                return
        self.bump(self.stats, "saved")
        why = None
        if cut is not None:
            # the node dies while the file is being written
            data = data[:min(len(data) - 1, int(len(data)*cut))]
            why = "cut short"
            self.bump(self.faults, "torn_write")
        self.blobs[blob] = (data, s, why, self.cfg.get((n, key)))

    def e_load(self, n, key, blob, cut=None):
        if blob not in self.blobs:
            return
        data, s, why, cfg = self.blobs[blob]
        if cut is not None:
            data = data[:min(len(data) - 1, int(len(data)*cut))]
            why = "cut short"
            self.bump(self.faults, "short_read")
        r = self.call(n, "load", key, data, self.spec(s))
        self.maps.pop((n, key), None)
        if why is not None:
            self.bump(self.stats, "refused")
            if r[0]:
                self.bad("accepted " + why, "node %d (%s): a saved %s that is %s was restored as a %s", n,
                         self.nodes[n].flavour, self.spec(s)["cls"], why, r[1])
            return
        if not r[0]:
            self.bad("restore raised", "node %d: restoring %s raised %s", n, self.spec(s)["cls"], r[1:])
            return
        self.maps[n, key] = s
        self.bump(self.stats, "restored")
        self.whole(n, key, s, cfg)
        for m, k in sorted(self.maps):
            if m == n and k != key and self.maps[m, k] == s:
                self.parts(n, k, key)
                break

    def e_copy(self, n, key, key2, how):
        s = self.maps.get((n, key))
        if s is None:
            return
        r = self.call(n, "copy", key, key2, how)
        if not r[0]:
            self.bad(how + " raised", "node %d: %s of %s raised %s", n, how, self.spec(s)["cls"], r[1:])
            return
        self.maps[n, key2] = s
        self.bump(self.stats, "restored")
        self.whole(n, key2, s, self.cfg.get((n, key)))
        self.parts(n, key, key2)

    def parts(self, n, key, key2):
        r = self.call(n, "parts", key, key2)
        if not r[0]:
            self.bad("comparison raised", "node %d: comparing patches raised %s", n, r[1:])
        elif r[1]:
            self.bad("patches unequal", "node %d: (tract, patch) %s of %s, a restored map, are not equal to those of the"
                     " original", n, r[1], self.spec(self.maps[n, key])["cls"])
        self.bump(self.stats, "compared_patches")

    def e_forge(self, n, blob, s, form, version, proto, newer):
        if isinstance(version, list):
            version = tuple(version)
        r = self.call(n, "forge", self.spec(s), form, version, proto)
        if not r[0]:
            raise core.HarnessError("forge: %r" % (r,))
        self.blobs[blob] = (r[1], s, "of newer format version %s" % (version,) if newer else None, None)
        self.bump(self.faults, "newer_release_form" if newer else "older_release_form")

    def e_crash(self, n, flavour):
        self.nodes[n].crash()
        self.start(n, flavour)
        for k in [k for k in self.maps if k[0] == n]:
            del self.maps[k]
        self.bump(self.faults, "crash_restart")

    def e_ident(self, n, key):
        s = self.maps.get((n, key))
        if s is None:
            return
        r = self.call(n, "ident", key)
        if not r[0]:
            self.bad("identity raised", "node %d: identity raised %s", n, r[1:])
            return
        cname, dt, ln, hx, num = r[1]
        if dt != "bytes" or ln != 20:
            self.bad("digest shape", "node %d: the digest is %s of length %s", n, dt, ln)
        k = ident_key(self.spec(s))
        self.bump(self.stats, "compared")
        old = self.byident.setdefault(k, hx)
        if old != hx:
            self.bad("digest differs", "node %d (%s), map %s: digest %s, but %s for the same class and configuration"
                     " elsewhere or before", n, self.nodes[n].flavour, key, hx, old)
        other = self.digests.setdefault(hx, (k, s))
        if other[0] != k and (self.w.prop == "C06" or self.collision(other[1], s) != "rings-version-collision"):
            self.bad(self.collision(other[1], s), "node %d, map %s: the digest %s is also that of another map: %s",
                     n, key, hx, self.difference(other[1], s))

    def e_swarm(self, n, s, specs, how, order):
        """Many maps that differ little from specification s, in one node."""
        r = self.call(n, "swarm", [self.spec(s)] + specs, how, order)
        if not r[0]:
            self.bad("comparison raised", "node %d: comparing raised %s", n, r[1:])
            return
        base = len(self.plan["specs"])
        self.swarms = getattr(self, "swarms", {})
        for i, got in enumerate(r[1]):
            if got[0] == "raised":
                if i == 0 and not self.may_fail(s):
                    self.bad("build raised", "node %d cannot build %s: %s", n, self.spec(s)["cls"], got[1:])
                if i == 0:
                    return
                continue
            at = s if i == 0 else base + self.at*1000 + i
            if i:
                self.swarms[at] = specs[i - 1]
            k = ident_key(self.spec(at))
            hx, e, e2, ne, hs, ln = got
            self.bump(self.stats, "compared")
            old = self.byident.setdefault(k, hx)
            if old != hx:
                self.bad("digest differs", "node %d: digest %s, but %s for the same class and configuration elsewhere"
                         " or before", n, hx, old)
            other = self.digests.setdefault(hx, (k, at))
            if other[0] != k:
                self.bad(self.collision(other[1], at), "node %d: the digest %s is also that of another map: %s", n, hx,
                         self.difference(other[1], at))
            same = k == ident_key(self.spec(s))
            if same and not (e and e2 and not ne and hs and ln == 1):
                self.bad("equal maps, unequal", "node %d: maps of the same class and configuration compare"
                         " ==:%s %s !=:%s hash equal:%s set of %s", n, e, e2, ne, hs, ln)
            if not same and (e or e2 or not ne or ln != 2):
                self.bad(self.collision(s, at), "node %d: maps differ (%s) but compare ==:%s %s !=:%s", n,
                         self.difference(s, at), e, e2, ne)

    def difference(self, a, b):
        x, y = self.spec(a), self.spec(b)
        out = []
        for k in ("cls", "sub", "builder"):
            if x.get(k) != y.get(k):
                out.append("%s %s/%s" % (k, x.get(k), y.get(k)))
        for part in ("cfg", "bcfg"):
            for k in sorted(set(x[part]) | set(y[part])):
                if x[part].get(k) != y[part].get(k):
                    out.append("%s %r/%r" % (k, x[part].get(k), y[part].get(k)))
        return ", ".join(out)

    def collision(self, a, b):
        """Signature of two different maps that look the same."""
        x, y = self.spec(a), self.spec(b)
        if {x["cls"], y["cls"]} == {"rings", "rings0"} and x.get("sub", False) == y.get("sub", False) and all(
                x.get(k) == y.get(k) for k in ("cfg", "bcfg", "builder")):
            return "rings-version-collision"
        return "different maps, equal identity"

    def e_eq(self, n, k1, k2):
        a, b = self.maps.get((n, k1)), self.maps.get((n, k2))
        if a is None or b is None:
            return
        r = self.call(n, "eq", k1, k2)
        if not r[0]:
            self.bad("comparison raised", "node %d: comparing raised %s", n, r[1:])
            return
        same = a == b or ident_key(self.spec(a)) == ident_key(self.spec(b))
        self.bump(self.stats, "compared")
        e, e2, ne, hs, ln, member = r[1]
        if same and not (e and e2 and not ne and hs and ln == 1 and member):
            self.bad("equal maps, unequal", "node %d: maps %s and %s have the same class and configuration but compare"
                     " ==:%s %s !=:%s hash equal:%s set of %s", n, k1, k2, e, e2, ne, hs, ln)
        if self.w.prop != "C06" and self.collision(a, b) == "rings-version-collision":
            return      # judged by C06 alone
        if not same and (e or e2 or not ne or ln != 2 or member):
            self.bad(self.collision(a, b), "node %d: maps %s and %s differ (%s) but compare ==:%s %s !=:%s", n, k1, k2,
                     self.difference(a, b), e, e2, ne)


class ClusterWorld(T.ThreadWorld):
    nscen = {"quick": 12, "thorough": 40}
    pool = {"quick": 60, "thorough": 250}
    real = T.ThreadWorld.real + ("pickle, copy", "separate interpreter processes as nodes")
    stubs = T.ThreadWorld.stubs + ("network, durable storage and node life cycle (simulated)",)
    assumptions = T.ThreadWorld.assumptions[:2] + (
        "nodes are forked from interpreters that differ in hash seed and optimisation level, on one machine and"
        " one Python version",)
    order = ("discrete", "rings", "healpix", "dodeca", "equat", "rings0")

    def prepare(self):
        self.unbuildable = set()
        self.zyg = node.Zygotes(self.scratch)
        self.zyg.start(wait=False)
        T.ThreadWorld.prepare(self)
        self.zyg.start()

    def worker_init(self, w):
        if not hasattr(self, "zyg"):
            self.unbuildable = set()
            self.zyg = node.Zygotes(self.scratch)
            self.zyg.start()

    def close(self):
        if hasattr(self, "zyg"):
            self.zyg.stop()

    def profile(self, spec):
        """What a restored map must report: from a fresh map in a fresh process."""
        def fn():
            from .. import forks

            def child():
                n = node.Node()
                n.build("k", spec)
                d = {"ident": n.ident("k"), "config": n.config("k")}
                if spec["cls"].startswith("rings") or len(n.maps["k"]) <= 60:
                    d["numbering"] = n.numbering("k")
                return d
            return forks.call(child)
        return self.store.get(["profile", spec], fn)

    def run(self, plan):
        return Run(self, plan).go()

    def finalize(self, plan, outcome):
        p = json.loads(json.dumps(plan))
        for ev in p["events"]:
            if ev[1] == "save" and len(ev) > 7 and ev[7] and ev[4] in outcome["conc"]:
                ev[7].pop("strategy", None)
                ev[7]["script"] = outcome["conc"][ev[4]]
        return p

    def lists(self, plan):
        return ["events"]

    # -- plan pieces -----------------------------------------------------------
    def ask(self, rng, j, k):
        f = self.focus(rng, j, 8)
        return [list(op) for op in self.draw(rng, j, 0, k, f) if op[0] != "eq"]

    def conc(self, rng, j):
        nt = rng.choice((2, 2, 3))
        evs = []
        k = 0
        for t in range(nt - 1):
            for op in self.ask(rng, j, rng.randint(1, 4)):
                evs.append({"id": k, "t": t, "op": op})
                k += 1
        return {"events": evs, "saver": nt - 1, "seed": rng.randrange(1 << 30),
                "strategy": T.ThreadWorld.strategy(self, rng), "opcodes": rng.random() < 0.2}


HOWS = ("pickle", "pickle", "pickle", "twice", "withconfig", "pypickle")


class C04(ClusterWorld):
    prop = "C04"
    siblings = 6
    runs = {"quick": 700, "thorough": 25000}
    rule = ("a run is 2-4 nodes building, using, saving (also while threads populate the map, also torn by a crash),"
            " exchanging, restoring and copying maps over a lossy, duplicating, reordering network with node"
            " crashes and restarts; every restored map is compared with a fresh one; non-trivial: at least one"
            " restoration, on a distinct execution")

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        return self.traffic(rng, i)

    def traffic(self, rng, i, forge=False):
        ns = rng.choice((1, 1, 2, 2, 3, 4))
        js = [rng.randrange(len(self.specs)) for _ in range(ns)]
        kin = ns > 1 and rng.random() < 0.7
        if kin:             # maps that differ little
            kin = [j for j in range(len(self.specs)) if self.fam[j] == self.fam[js[0]]]
            js = js[:1] + [rng.choice(kin) for _ in js[1:]]
        specs = [self.specs[j] for j in js]
        if not forge:       # classes that users derived
            specs = [dict(t, sub=True) if rng.random() < 0.1 else t for t in specs]
        nn = rng.randint(2, 4)
        nodes = [rng.choice(sorted(node.FLAVOURS)) for _ in range(nn)]
        net = Net(rng, nn)
        keys = 0
        nb = 0
        have = {n: [] for n in range(nn)}      # (key, spec) as far as the plan can know
        for s in range(ns):
            n = rng.randrange(nn)
            net.emit("build", n, keys, s, rng.randrange(1 << 20), "assign")
            have[n].append((keys, s))
            keys += 1
        blobs = []

        if kin and rng.random() < 0.6:      # all of them restored in one place
            to = rng.randrange(nn)
            for n in list(have):
                for k, s in list(have[n]):
                    nb += 1
                    net.emit("save", n, k, "b%d" % nb, rng.choice(HOWS), rng.randint(0, 5), None, None)
                    blobs.append(("b%d" % nb, s, True))
                    net.send("load", to, keys, "b%d" % nb, None)
                    have[to].append((keys, s))
                    keys += 1
            net.advance(rng.expovariate(1/60.0))

        def anywhere():
            c = [(n, k, s) for n in have for k, s in have[n]]
            return rng.choice(c) if c else None
        for _ in range(rng.randint(6, 16)):
            net.advance(rng.expovariate(1/60.0))
            r = rng.random()
            if forge and r < 0.3:
                self.forge(rng, net, js, nn, have)
                continue
            at = anywhere()
            if at is None:
                s = rng.randrange(ns)
                n = rng.randrange(nn)
                if blobs and rng.random() < 0.8:      # restart from what is on disk
                    b, s, ok = rng.choice(blobs)
                    net.emit("load", n, keys, b)
                    if ok:
                        have[n].append((keys, s))
                else:
                    net.emit("build", n, keys, s, rng.randrange(1 << 20), "assign")
                    have[n].append((keys, s))
                keys += 1
                continue
            n, k, s = at
            j = js[s]
            if r < 0.30:
                net.emit("use", n, k, self.ask(rng, j, rng.randint(1, 4)))
            elif r < 0.66:
                nb += 1
                b = "b%d" % nb
                conc = self.conc(rng, j) if rng.random() < 0.3 else None
                cut = rng.choice((0.0, rng.random(), rng.random(), 0.999999)) if rng.random() < 0.12 else None
                net.emit("save", n, k, b, rng.choice(HOWS), rng.randint(0, 5), conc, cut)
                blobs.append((b, s, cut is None))
                if cut is not None:
                    net.emit("crash", n, rng.choice(sorted(node.FLAVOURS)))
                    have[n] = []
                for _ in range(rng.choice((1, 1, 2))):
                    to = rng.randrange(nn)
                    short = rng.random() if rng.random() < 0.1 else None
                    net.send("load", to, keys, b, short)
                    if cut is None and short is None:
                        have[to].append((keys, s))
                    keys += 1
            elif r < 0.76:
                net.emit("copy", n, k, keys, rng.choice(("copy", "deepcopy")))
                have[n].append((keys, s))
                keys += 1
            elif r < 0.88:
                net.emit("crash", n, rng.choice(sorted(node.FLAVOURS)))
                have[n] = []
            elif len(have[n]) > 1:
                net.emit("eq", n, k, rng.choice(have[n])[0])
            else:
                net.emit("ident", n, k)
        net.drain()
        for _ in range(3):
            at = anywhere()
            if at:
                net.emit("use", at[0], at[1], self.ask(rng, js[at[2]], 3))
                net.emit("ident", at[0], at[1])
        return {"specs": specs, "nodes": nodes, "events": net.events,
                "network": net.count}

    def run(self, plan):
        out = ClusterWorld.run(self, plan)
        for k, v in plan.get("network", {}).items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        return out

    def forge(self, rng, net, js, nn, have):
        pass


class C05(C04):
    prop = "C05"
    runs = {"quick": 600, "thorough": 25000}
    rule = ("a run is C04's cluster over rings (both numberings), dodeca and equat maps, in which forms saved by other"
            " releases (both rings numberings, older and newer format versions) also arrive, repeatedly, on any"
            " node; non-trivial: at least one restoration or refusal, on a distinct execution")

    def prepare(self):
        C04.prepare(self)
        keep = [j for j, s in enumerate(self.specs) if s["cls"] in ("rings", "rings0", "dodeca", "equat")]
        # each rings map also in the other numbering
        extra = []
        for j in list(keep):
            if self.specs[j]["cls"].startswith("rings"):
                t = json.loads(json.dumps(self.specs[j]))
                t["version"] = 1 - t["version"]
                t["cls"] = "rings0" if t["version"] == 0 else "rings"
                extra.append((t, self.surveys[j], self.pools[j], self.fam[j]))
        self.specs = [self.specs[j] for j in keep] + [e[0] for e in extra]
        self.surveys = [self.surveys[j] for j in keep] + [e[1] for e in extra]
        self.pools = [self.pools[j] for j in keep] + [e[2] for e in extra]
        self.fam = [self.fam[j] for j in keep] + [e[3] for e in extra]
        self.by = {}
        for j, s in enumerate(self.specs):
            self.by.setdefault(s["cls"], []).append(j)

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        p = self.traffic(rng, i, forge=True)
        return p

    def traffic(self, rng, i, forge=True):
        # choose classes evenly
        return C04.traffic(self, rng, i, forge)

    def forge(self, rng, net, js, nn, have):
        s = rng.randrange(len(js))
        spec = self.specs[js[s]]
        net.n += 1
        b = "f%d" % net.n
        n = rng.randrange(nn)
        proto = rng.randint(0, 5)
        if spec["cls"].startswith("rings"):
            form = "args"
            if rng.random() < 0.5:
                v, newer = spec["version"], False
            else:
                v, newer = rng.choice((2, 2, 3, 10, 1.5, 1.25, 1 << 20, [2, 0], [1, 1], [10, 0])), True
        else:
            form = "state"
            if rng.random() < 0.4:
                v, newer = [1, 0], False
            else:
                v, newer = rng.choice(([2, 0], [2, 0], [2, 1], [3, 0], [10, 0], [2, 0, 0])), True
        net.emit("forge", n, b, s, form, v, proto, newer)
        for _ in range(rng.choice((1, 2, 3))):
            to = rng.randrange(nn)
            k = 100000 + net.n
            net.n += 1
            net.send("load", to, k, b, None)
            if not newer:
                have[to].append((k, s))


class C06(ClusterWorld):
    prop = "C06"
    runs = {"quick": 900, "thorough": 30000}
    rule = ("a run is 2-3 nodes building the same configuration by different routes and orders, and variants that"
            " differ from it in one setting (by as little as one rounding step), using, saving, restoring and"
            " copying them and comparing identities within and across nodes, with crashes and restarts;"
            " non-trivial: at least one comparison, on a distinct execution")
    ROUTES = ("assign", "assign", "shared", "string", "pickle", "deepcopy", "inactive", "compat", "ints", "default")

    def vary(self, rng, spec):
        """One setting changed."""
        t = json.loads(json.dumps(spec))
        for _ in range(20):
            what = rng.choice(["cfg"]*3 + ["bcfg"]*2 + ["builder", "cls", "proj"])
            if what == "builder":
                if t["builder"] == "legacy":
                    d = t["bcfg"]["patchInnerDimensions"]
                    t["builder"] = "cells"
                    t["bcfg"] = {"cellInnerDimensions": [d[0], d[0]], "cellBorder": t["bcfg"]["patchBorder"],
                                 "numCellsPerPatchInner": 1, "numCellsInPatchBorder": 0}
                else:
                    c = t["bcfg"]["cellInnerDimensions"][0]*t["bcfg"]["numCellsPerPatchInner"]
                    t["builder"] = "legacy"
                    t["bcfg"] = {"patchInnerDimensions": [c, c], "patchBorder": 1}
                return t
            if what == "cls":
                if rng.random() < 0.4:      # a class that a user derived
                    t["sub"] = not t.get("sub", False)
                    return t
                if spec["cls"] in ("rings", "rings0"):
                    t["version"] = 1 - t["version"]
                    t["cls"] = "rings0" if t["version"] == 0 else "rings"
                    return t
                continue
            if what == "proj":
                t["cfg"]["projection"] = rng.choice(self.projections(spec))
                return t
            if rng.random() < 0.12 and self.trade(rng, t) and ident_key(t) != ident_key(spec):
                return t
            k = rng.choice(sorted(t[what]))
            if k == "projection":
                continue
            v = t[what][k]
            if isinstance(v, bool):
                t[what][k] = not v
            elif isinstance(v, int):
                t[what][k] = v + rng.choice((1, 1, 2, 256, 1000, 1024, 65536))
                if k in ("log2NSide", "numRings", "numTracts"):
                    t[what][k] = v + 1
            elif isinstance(v, float):
                t[what][k] = self.nudge(rng, v)
                if k == "raStart" and not 0 <= t[what][k] < 360:
                    t[what][k] = 12.5 if v != 12.5 else 13.5
            elif k == "cellInnerDimensions":
                t[what][k] = [v[0] + 1]*2
            elif k == "patchInnerDimensions":
                if v[0] != v[1] and rng.random() < 0.3:
                    t[what][k] = [v[1], v[0]]
                else:
                    a = rng.randrange(2)
                    t[what][k][a] += rng.choice((1, 64))
            else:       # lists of floats
                r = rng.random()
                if k == "decRange" and r < 0.2 and v[0] != -v[1]:
                    t[what][k] = [-v[1], -v[0]]     # the other side of the equator
                elif k == "decRange":
                    a = rng.randrange(2)
                    t[what][k][a] = self.nudge(rng, v[a], -1 if a == 0 else 1)
                elif r < 0.25:
                    for kk in ("raList", "decList", "radiusList"):
                        t["cfg"][kk].append(t["cfg"][kk][0])
                elif r < 0.5 and len(v) > 2:
                    for kk in ("raList", "decList", "radiusList"):
                        t["cfg"][kk].pop()
                elif r < 0.7:
                    a, b = rng.sample(range(len(v)), 2)
                    for kk in ("raList", "decList", "radiusList"):
                        x = t["cfg"][kk]
                        x[a], x[b] = x[b], x[a]
                else:
                    a = rng.randrange(len(v))
                    t[what][k][a] = self.nudge(rng, v[a], -1 if k == "decList" and v[a] > 0 else 1)
            if ident_key(t) != ident_key(spec):
                return t
        return t

    LAZY = ("TAN TSC TPV TPD AZP SZP STG SIN ARC ZPN ZEA AIR CYP CEA CAR MER SFL PAR MOL AIT COP COE COD COO BON"
            " PCO QSC CSC").split()

    def projections(self, spec):
        """Other projections (any will do where no tract is made to build the map)."""
        old = spec["cfg"]["projection"]
        some = ["TAN", "STG", "SIN", "ZEA", "ARC", "CEA", "CAR", "MER"]
        if spec["cls"] in ("equat", "dodeca"):
            return [p for p in some if p != old]
        near = [p for p in self.LAZY if sum(a == b for a, b in zip(p, old)) in (1, 2)]
        return [p for p in self.LAZY if p != old] + 3*near

    def special(self, rng, spec, k):
        """k of the less usual small differences that the specification can have."""
        ways = []
        c, b = spec["cfg"], spec["bcfg"]
        for k in sorted(k for k, v in c.items() if isinstance(v, float)):
            v = c[k]
            for w in {v + 360.0, v - 360.0, v + 180.0, -v, v*10, v + 1.0, v + 1e-5, v*(1 + 1e-7), float(round(v)),
                      float(round(v, 3)), abs(v), v % 360.0, v % 180.0, v/3600, float("%.12g" % v),
                      math.nextafter(v, math.inf), v*(1 + 1e-12), v + 1e-9}:
                w += 0.0        # no negative zero
                if (w == v or (k == "raStart" and not 0 <= w < 360) or (k == "pixelScale" and w <= 0)
                        or (k == "tractOverlap" and not 0 <= w < 90)):
                    continue
                ways.append(("cfg", k, w))
        for k in sorted(k for k, v in b.items() if isinstance(v, int)):
            for w in (b[k] + 1, b[k] + 256, b[k] + 1000, b[k] + 1024, b[k] + 65536, b[k]*2, 0, 1):
                if w != b[k] and (w or k != "numCellsPerPatchInner"):
                    ways.append(("bcfg", k, w))
        for a, x in enumerate(c.get("raList") or []):      # a whole turn away
            for w in (x + 360.0, x - 360.0):
                ways.append(("cfg", "raList", c["raList"][:a] + [w] + c["raList"][a + 1:]))
        for k in ("raList", "decList", "radiusList"):
            if k in c:
                v = c[k]
                for w in ([round(x, 3) for x in v], [x + 1e-5*(-1 if x > 0 else 1) for x in v], sorted(v), v[::-1]):
                    if w != v:
                        ways.append(("cfg", k, w))
                for d in (1e-15, 1e-12, 1e-9, 1e-7):      # one element by a little
                    w = list(v)
                    a = rng.randrange(len(w))
                    w[a] = w[a]*(1 - d) if d > 1e-15 else math.nextafter(w[a], 0.0)
                    if w != v:
                        ways.append(("cfg", k, w))
        for w in rng.sample(self.projections(spec), 5):
            ways.append(("cfg", "projection", w))
        if "decRange" in c:
            v = c["decRange"]
            for w in ([-v[1], -v[0]], [v[0], v[1] + 1e-5], [float(math.floor(v[0])), v[1]], [v[0] - 1.0, v[1] - 1.0],
                      [v[0] - 1.0, v[1] + 1.0], [v[0], math.nextafter(v[1], 90.0)], [v[0]*(1 + 1e-12), v[1]],
                      [v[0], v[1] + 1e-9]):
                if w != v and -90 < w[0] < w[1] < 90:
                    ways += [("cfg", "decRange", w)]*2
        ways += ["sub"]*4
        rng.shuffle(ways)
        out = []
        for w in ways:
            t = json.loads(json.dumps(spec))
            if w == "sub":
                t["sub"] = not t.get("sub", False)
            else:
                t[w[0]][w[1]] = w[2]
            if rng.random() < 0.15:
                self.trade(rng, t)
            if ident_key(t) != ident_key(spec) and t["cfg"]["tractOverlap"] >= 0 and t["cfg"]["pixelScale"] > 0:
                out.append(t)
            if len(out) == k:
                break
        return out

    @staticmethod
    def trade(rng, t):
        """Change two settings in ways that may cancel out."""
        b, c = t["bcfg"], t["cfg"]
        r = rng.random()
        if t["builder"] == "cells" and r < 0.6:
            size, n = b["cellInnerDimensions"][0], b["numCellsPerPatchInner"]
            if r < 0.2:      # the same border in pixels
                k = rng.choice((1, 2))
                b["numCellsInPatchBorder"] += k
                b["cellBorder"] = max(0, b["cellBorder"] - k*size) if rng.random() < 0.5 else b["cellBorder"] + k*size
            elif r < 0.4:    # the same patch in pixels
                b["cellInnerDimensions"], b["numCellsPerPatchInner"] = [n]*2, size
            else:
                b["cellBorder"], b["numCellsInPatchBorder"] = b["numCellsInPatchBorder"], b["cellBorder"] % 7
        elif r < 0.6:
            d = b["patchInnerDimensions"]
            if r < 0.2:
                b["patchInnerDimensions"], b["patchBorder"] = [d[0], max(1, b["patchBorder"])], d[1]
            elif r < 0.4:
                d[0], d[1] = d[0] + 1, max(1, d[1] - 1)
            else:
                d[1], b["patchBorder"] = d[1] + 1, max(0, b["patchBorder"] - 1)
        else:
            ks = sorted(k for k, v in c.items() if isinstance(v, float) and k != "raStart")
            x, y = rng.sample(ks, 2)
            if r < 0.8:
                c[x], c[y] = c[y], c[x]
            else:
                d = rng.choice((1.0, 0.5, 1e-3))
                c[x], c[y] = c[x] + d, c[y] - d
            if c["pixelScale"] <= 0 or c["tractOverlap"] < 0:
                return False
        return True

    @staticmethod
    def scale_up(rng, s):
        """The same layout from round numbers of pixels."""
        b = s["bcfg"]
        k = "patchInnerDimensions" if s["builder"] == "legacy" else "cellInnerDimensions"
        old = b[k][0]
        new = rng.choice((250, 256, 500, 1000, 1024, 2000, 4096))
        b[k] = [new, new]
        s["cfg"]["pixelScale"] = scen.r3(s["cfg"]["pixelScale"]*old/new)

    @staticmethod
    def nudge(rng, v, sign=None):
        sign = sign or rng.choice((-1, 1))
        if v == 0.0:
            return rng.choice((1e-300, 1e-9, 0.5)) if sign > 0 else 0.25
        r = rng.random()
        if r < 0.12:
            return rng.choice((-v, v + 360.0, v - 360.0, v + 180.0, v*2, v*10))
        if r < 0.38:
            return math.nextafter(v, math.inf*sign)
        if r < 0.6:
            return v + abs(v)*sign*1e-12
        if r < 0.8:
            return v + abs(v)*sign*1e-6
        return v + abs(v)*sign*0.05

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        j = rng.randrange(len(self.specs))
        specs = [self.specs[j]]
        plain = True
        if rng.random() < 0.3:
            plain = False       # not the map that the pool of queries was made for
            specs = [json.loads(json.dumps(specs[0]))]
            if rng.random() < 0.6:
                self.scale_up(rng, specs[0])
            else:
                specs[0]["sub"] = True
        if rng.random() < 0.3:
            specs.append(self.special(rng, specs[0], 1)[0])
        for _ in range(rng.randint(1, 2)):
            specs.append(self.vary(rng, specs[0] if rng.random() < 0.8 else specs[-1]))
        if rng.random() < 0.2:
            specs.append(self.specs[rng.randrange(len(self.specs))])
        nn = rng.randint(2, 3)
        nodes = [rng.choice(sorted(node.FLAVOURS)) for _ in range(nn)]
        net = Net(rng, nn)
        keys = 0
        have = {n: [] for n in range(nn)}
        nb = 0
        for _ in range(rng.randint(8, 20)):
            net.advance(rng.expovariate(1/60.0))
            cands = [(n, k, s) for n in have for k, s in have[n]]
            r = rng.random()
            if not cands or r < 0.35:
                n = rng.randrange(nn)
                s = rng.choice((0, 0, rng.randrange(len(specs)), rng.randrange(len(specs))))
                net.emit("build", n, keys, s, rng.randrange(1 << 20), rng.choice(self.ROUTES))
                have[n].append((keys, s))
                if rng.random() < 0.5:
                    net.emit("ident", n, keys)
                keys += 1
                continue
            n, k, s = rng.choice(cands)
            if r < 0.50:
                net.emit("ident", n, k)
            elif r < 0.66 and len(have[n]) > 1:
                net.emit("eq", n, k, rng.choice(have[n])[0])
            elif r < 0.76:
                if s == 0 and plain:
                    net.emit("use", n, k, self.ask(rng, j, rng.randint(1, 3)))
                else:
                    net.emit("ident", n, k)
            elif r < 0.88:
                nb += 1
                net.emit("save", n, k, "b%d" % nb, rng.choice(HOWS), rng.randint(0, 5),
                         self.conc(rng, j) if s == 0 and plain and rng.random() < 0.2 else None, None)
                to = rng.randrange(nn)
                net.send("load", to, keys, "b%d" % nb, None)
                net.later(500.0, "ident", to, keys)
                have[to].append((keys, s))
                keys += 1
            elif r < 0.95:
                net.emit("copy", n, k, keys, rng.choice(("copy", "deepcopy")))
                have[n].append((keys, s))
                net.emit("ident", n, keys)
                keys += 1
            else:
                net.emit("crash", n, rng.choice(sorted(node.FLAVOURS)))
                have[n] = []
        net.drain()
        if rng.random() < 0.6:
            n = rng.randrange(nn)
            s = rng.randrange(len(specs))
            some = self.special(rng, specs[s], rng.choice((8, 20)))
            if rng.random() < 0.5:      # the same again in between
                some = [x for y in some for x in ([y, specs[s]] if rng.random() < 0.4 else [y])]
            net.emit("swarm", n, s, some, rng.choice(("assign", "shared")), rng.randrange(1 << 20))
        for n in have:
            for k, s in have[n]:
                net.emit("ident", n, k)
            for _ in range(2):
                if len(have[n]) > 1:
                    a, b = rng.sample(have[n], 2)
                    net.emit("eq", n, a[0], b[0])
        return {"specs": specs, "nodes": nodes, "events": net.events, "may_not_build": True, "network": net.count}

    run = C04.run


WORLDS = {"C04": C04, "C05": C05, "C06": C06}
