"""Failures of the projection library (C11).

The WCS stand-in is told, per (tract, coordinate), to fail: with the errors
and non-finite positions that mean "cannot be projected", or with errors that
mean something else.  The oracle is the failure-free behaviour of a fresh map
in another process, with the unprojectable coordinates taken away."""
import hashlib
import math
import random

from .. import canon as C
from .. import core, forks, ops, scen
from . import model, threads as T

SOFT = ("domain", "runtime", "range", "overflow", "nan", "nanx", "nany", "inf", "-inf", "infx", "infy")
HARD = ("memory", "value", "os", "interrupt", "recursion", "invalid", "length", "zero", "type", "exit",
        "index", "key", "notfound", "assert", "attr")
# a tract cannot be made
NOTRACT = ("memory", "value", "os", "interrupt", "recursion", "invalid", "length", "zero", "type", "exit", "assert",
           "attr", "domain", "runtime")
INF, NAN = math.inf, math.nan
POS = {"nan": (NAN, NAN), "nanx": (NAN, 7.0), "nany": (7.0, NAN), "inf": (INF, INF), "-inf": (-INF, -INF),
       "infx": (INF, 7.0), "infy": (7.0, -INF)}
HARD_NAMES = {"memory": "MemoryError", "value": "ValueError", "os": "OSError", "interrupt": "KeyboardInterrupt",
              "recursion": "RecursionError", "invalid": "InvalidParameterError", "length": "LengthError",
              "zero": "ZeroDivisionError", "type": "TypeError", "exit": "SystemExit", "assert": "AssertionError",
              "attr": "AttributeError", "index": "IndexError", "key": "KeyError", "notfound": "NotFoundError"}


def error(kind):
    import lsst.pex.exceptions as px
    msg = "simulated %s failure of the projection" % kind
    return {"domain": px.DomainError, "runtime": px.RuntimeError, "range": px.RangeError,
            "overflow": px.OverflowError, "memory": MemoryError, "value": ValueError, "os": OSError,
            "interrupt": KeyboardInterrupt, "recursion": RecursionError, "invalid": px.InvalidParameterError,
            "length": px.LengthError, "zero": ZeroDivisionError, "type": TypeError, "exit": SystemExit,
            "index": IndexError, "key": KeyError, "notfound": px.NotFoundError, "assert": AssertionError,
            "attr": AttributeError}[kind](msg)


def near(a, b):
    d = abs(a[0] - b[0]) % (2*math.pi)
    return abs(a[1] - b[1]) < 1e-11 and min(d, 2*math.pi - d) < 1e-11


class Env:
    """Coordinates and the failure table of a run, resolved on a map."""

    def __init__(self, plan):
        self.spec = plan["spec"]
        M = ops.Maps([self.spec])
        sm = M[0]
        self.n = len(sm)
        self.coords = [model.resolve(M, 0, r) for r in plan["coords"]]
        self.crval = []
        for i in range(self.n):
            o = sm[i].getWcs().getSkyOrigin()
            self.crval.append((o.getLongitude().asRadians(), o.getLatitude().asRadians()))
        self.bad = []
        for b in plan["bad"]:
            who = range(self.n) if b["t"] is None else [model.pick(b["t"], self.n)]
            for i in who:
                self.bad.append((self.crval[i], self.coords[b["c"] % len(self.coords)], b["kind"]))
        # tracts that cannot be made, for so many attempts
        self.gen = []
        for b in plan.get("gen") or []:
            who = range(self.n) if b["t"] is None else [model.pick(b["t"], self.n)]
            self.gen.append([[self.crval[i] for i in who], b["kind"], b["n"]])

    def kind(self, crval, co):
        for v, c, k in self.bad:
            if near(v, crval) and near(c, co):
                return k
        return None


def sp(c):
    import lsst.geom as g
    return g.SpherePoint(g.Angle(c[0]), g.Angle(c[1]))


def golden(plan):
    """The failure-free answers everything is derived from (own process)."""
    env = Env(plan)
    sm = scen.make_map(env.spec)
    co = env.coords
    g = {"env": env, "find": [], "all": [], "array": None, "contains": {}, "patch": {}, "kind": {}}
    for c, q in enumerate(co):
        g["find"].append(int(sm.findTract(sp(q)).getId()))
        if hasattr(sm, "findAllTracts"):
            g["all"].append(sorted({int(t.getId()) for t in sm.findAllTracts(sp(q))}))
    import numpy as np
    g["array"] = [int(v) for v in sm.findTractIdArray(np.array([q[0] for q in co]), np.array([q[1] for q in co]))]
    for t in range(env.n):
        for c, q in enumerate(co):
            k = env.kind(env.crval[t], q)
            if k:
                g["kind"][t, c] = k
            g["contains"][t, c] = bool(sm[t].contains(sp(q)))
    for t in {model.pick(op[2], env.n) for op in [e["op"] for e in plan["events"]] + plan["audit"]
              if op[0] == "findPatch"}:
        for c, q in enumerate(co):
            try:
                g["patch"][t, c] = C.patch(sm[t].findPatch(sp(q)))
            except LookupError as e:
                g["patch"][t, c] = ("raised", type(e).__name__)
    # patch lists: every subset that will be needed
    g["list"] = {}
    for op in [e["op"] for e in plan["events"]] + plan["audit"]:
        if op[0] in ("findPatchList", "region", "closest"):
            cs = op[3]
            ts = [model.pick(op[2], env.n)] if op[0] == "findPatchList" else range(env.n)
            for t in ts:
                keep = tuple(c for c in cs if g["kind"].get((t, c)) not in SOFT)
                for sub in {keep, tuple(cs)}:
                    if (t, sub) not in g["list"]:
                        r = sm[t].findPatchList([sp(co[c]) for c in sub]) if sub else ()
                        g["list"][t, sub] = tuple(sorted(C.plist(r)))
    return g


STATE = {"on": False, "hits": 0}


def impl(M, op):
    """Operations on the live map; coordinates by number."""
    env = M.env
    name = op[0]
    sm = M[0]
    if name == "switch":
        STATE["on"] = op[2]
        return ("switched", op[2])
    cs = op[3] if len(op) > 3 else []
    q = [sp(env.coords[c]) for c in (cs if isinstance(cs, list) else [cs])]
    if name in ("contains", "findPatch", "findPatchList"):
        t = M.tract(0, model.pick(op[2], env.n))
        if name == "contains":
            r = t.contains(q[0])
            return bool(r)
        if name == "findPatch":
            return C.patch(t.findPatch(q[0]))
        return tuple(sorted(C.plist(t.findPatchList(q))))
    if name in ("region", "closest"):
        r = sm.findTractPatchList(q) if name == "region" else sm.findClosestTractPatchList(q)
        return tuple(sorted((int(M.note(0, t).getId()), tuple(sorted(C.plist(ps)))) for t, ps in r))
    if name == "all":
        if not hasattr(sm, "findAllTracts"):
            return ("none",)
        return tuple(sorted({int(M.note(0, t).getId()) for t in sm.findAllTracts(q[0])}))
    if name == "find":
        return int(M.note(0, sm.findTract(q[0])).getId())
    if name == "array":
        import numpy as np
        return tuple(int(v) for v in sm.findTractIdArray(np.array([env.coords[c][0] for c in cs]),
                                                         np.array([env.coords[c][1] for c in cs])))
    raise ValueError(name)


def live(plan):
    import lsst.geom as g
    env = Env(plan)
    STATE["on"] = plan["on"]
    hits = {}
    count = {}

    def project(wcs, lon, lat):
        if not STATE["on"]:
            return None
        k = env.kind(wcs._crval, (lon, lat))
        if k is None:
            return None
        count[k] = count.get(k, 0) + 1
        from .. import sched
        s = sched.SIM
        t = s.here() if s is not None else None
        if t is not None:
            hits.setdefault(t.op, set()).add(k)
        if k in POS:
            g_ = POS[k]
            return g_
        raise error(k)

    genhits = set()

    def make(lon, lat):
        from .. import sched
        s = sched.SIM
        t = s.here() if s is not None else None
        if t is None or not STATE["on"]:
            return
        for b in env.gen:
            if b[2] > 0 and any(near(v, (lon, lat)) for v in b[0]):
                b[2] -= 1
                k = "no tract: " + b[1]
                count[k] = count.get(k, 0) + 1
                genhits.add(t.op)
                raise error(b[1])

    def im(M, op):
        M.env = env
        return impl(M, op)

    # the failure table is applied between the beginning and the end of the
    # simulated history; the audit runs after the library has healed
    p = dict(plan, specs=[plan["spec"]])
    audit = p.pop("audit")
    g._project = project
    g._make = make
    out = None
    try:
        box = {}

        def keep(M, op):
            box["M"] = M
            return im(M, op)
        out = T.execute(dict(p, audit=[]), impl=keep)
        g._project = g._make = None
        M = box.get("M") or ops.Maps([plan["spec"]], plan.get("born"))
        if out["stop"] is None:
            for k, op in enumerate(audit):
                try:
                    out["audit"][k] = im(M, op)
                except BaseException as x:
                    out["audit"][k] = ("raised", type(x).__name__, str(x)[:200])
    finally:
        g._project = g._make = None
    out["hits"] = hits
    out["genhits"] = genhits
    out["count"] = count
    return out


def want(g, op, on):
    """(acceptable answers, hard kinds the answer may instead surface)."""
    env = g["env"]
    name = op[0]

    def kind(t, c):
        return g["kind"].get((t, c)) if on else None

    def plist(t, cs):
        return g["list"][t, tuple(c for c in cs if kind(t, c) not in SOFT)]

    if name in ("contains", "findPatch"):
        t, c = model.pick(op[2], env.n), op[3]
        k = kind(t, c)
        hard = {k} if k in HARD else set()
        if name == "contains":
            return [False if k in SOFT else g["contains"][t, c]], hard
        return [("raised", "LookupError") if k in SOFT else g["patch"][t, c]], hard
    if name == "findPatchList":
        t = model.pick(op[2], env.n)
        return [plist(t, op[3])], {kind(t, c) for c in op[3]} & set(HARD)
    rings = bool(g["all"])
    if name == "all":
        if not rings:
            return [("none",)], set()
        c = op[3]
        return [tuple(t for t in g["all"][c] if kind(t, c) not in SOFT)], \
            {kind(t, c) for t in range(env.n)} & set(HARD)
    if name == "find":
        return [g["find"][op[3]]], set()
    if name == "array":
        return [tuple(g["array"][c] for c in op[3])], set()
    cs = op[3]
    hard = {kind(t, c) for t in range(env.n) for c in cs} & set(HARD)
    if name == "region":
        if rings:
            ts = {t for c in cs for t in g["all"][c] if kind(t, c) not in SOFT}
        else:
            ts = set(range(env.n))
        return [tuple((t, plist(t, cs)) for t in sorted(ts) if plist(t, cs))], hard
    must = {g["find"][c] for c in cs if kind(g["find"][c], c) not in SOFT}
    may = sorted({g["find"][c] for c in cs} - must)
    hard = {kind(t, c) for t in must | set(may) for c in cs} & set(HARD)
    outs = []
    for m in range(1 << len(may)):
        ts = sorted(must | {may[i] for i in range(len(may)) if m >> i & 1})
        outs.append(tuple((t, plist(t, cs)) for t in ts if plist(t, cs)))
    return outs, hard


class C11(core.World):
    prop = "C11"
    runs = {"quick": 1600, "thorough": 60000}
    rule = ("a run is 1-3 threads asking one map look-ups by coordinate while the projection library fails"
            " for seeded (tract, coordinate) pairs, by errors, non-finite positions or unrelated errors,"
            " from the start, from some moment on or for a while, and heals; non-trivial: a failure was"
            " met inside a look-up, on a distinct execution")
    assumptions = (
        "lsst.geom and lsst.afw.geom are pure-Python stand-ins that pass the repository's own tests",
        "failure-free answers come from a fresh map in another process",
        "where a region look-up by closest tract is asked for a coordinate that its own closest tract"
        " cannot project, listing that tract or not are both accepted",
    )

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        spec = scen.gen_spec(rng, small=True)
        us = [rng.random() for _ in range(rng.choice((1, 2, 3)))]
        nc = rng.randint(2, 6)
        coords = [model.gen_recipe(rng, spec, rng.choice(us)) for _ in range(nc)]
        # natural impossibilities too: the far side of a tract
        if rng.random() < 0.3:
            coords.append(["far", rng.choice(us), rng.choice((0.0, 1e-9, 1e-4, 0.01)), rng.random()])
            nc += 1
        soft = rng.random() < 0.7
        bad = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 4, 6))):
            kinds = SOFT if soft or rng.random() < 0.5 else HARD
            bad.append({"t": None if rng.random() < 0.3 else rng.choice(us), "c": rng.randrange(nc),
                        "kind": rng.choice(kinds)})
        nt = rng.choice((1, 1, 2, 3))
        evs = []
        k = 0
        for t in range(nt):
            for _ in range(rng.randint(3, 8)):
                evs.append({"id": k, "t": t, "op": self.gen(rng, us, nc)})
                k += 1
        on = True
        if nt == 1 and rng.random() < 0.5:
            on = rng.random() < 0.3
            for _ in range(rng.choice((1, 2))):
                evs.insert(rng.randrange(len(evs) + 1), {"id": k, "t": 0, "op": ["switch", 0, rng.random() < 0.6]})
                k += 1
        gen = []
        if rng.random() < 0.35:
            for _ in range(rng.choice((1, 1, 2))):
                gen.append({"t": None if rng.random() < 0.5 else rng.choice(us), "n": rng.choice((1, 1, 2, 3, 1000)),
                            "kind": rng.choice(NOTRACT)})
        return {"spec": spec, "born": ops.births(rng, [spec], 0), "coords": coords, "bad": bad, "gen": gen, "on": on, "events": evs,
                "audit": [self.gen(rng, us, nc) for _ in range(4)], "sched_seed": i,
                "strategy": T.ThreadWorld.strategy(self, rng) if nt > 1 else {"kind": "none"},
                "opcodes": nt > 1 and rng.random() < 0.15, "max_steps": 8_000_000}

    def gen(self, rng, us, nc):
        name = rng.choice(("contains", "contains", "findPatch", "findPatch", "findPatch", "findPatchList",
                           "findPatchList", "findPatchList", "region", "region", "closest", "closest", "all",
                           "all", "find", "array"))
        u = rng.choice(us) if rng.random() < 0.85 else rng.random()
        if name in ("findPatchList", "region", "closest", "array"):
            return [name, 0, u, [rng.randrange(nc) for _ in range(rng.randint(1, min(4, nc)))]]
        return [name, 0, u, rng.randrange(nc)]

    finalize = T.ThreadWorld.finalize

    def lists(self, plan):
        return [k for k in ("script", "events", "bad", "gen", "audit") if plan.get(k)]

    def run(self, plan):
        g = forks.call(lambda: golden(plan), timeout=180.0)
        r = forks.call(lambda: live(plan), timeout=180.0)
        vio = []
        if r["stop"] is not None:
            if not r["stop"].startswith("given up"):
                vio.append({"sig": "no-progress", "msg": "the run was called off: " + r["stop"]})
        h = hashlib.sha1(r["trace"].encode())
        on = plan["on"]
        todo = []
        for e in plan["events"]:
            if e["op"][0] == "switch":
                on = e["op"][2]
                continue
            todo.append((e["op"], r["answers"].get(e["id"]), on, e["id"] in r["genhits"], "op %d (thread %d)" % (e["id"], e["t"])))
        todo += [(op, r["audit"].get(k), False, False, "after the library healed") for k, op in enumerate(plan["audit"])]
        for op, a, o, gh, where in todo:
            h.update(repr(T.clean(T.tup(a))).encode())
            if a is None:
                continue
            a = T.clean(T.tup(a))
            oks, hard = want(g, op, o)
            if any(a == T.tup(x) for x in oks):
                continue
            raised = isinstance(a, tuple) and a[:1] == ("raised",)
            if (hard or gh) and raised and a[1] != "LookupError":
                continue
            what = self.wrong(op, a, T.tup(oks[0]), hard | ({"a tract could not be made"} if gh else set()))
            vio.append({"sig": what[0], "msg": "%s: %s%r: %s; failing (tract, coordinate): %s" % (
                where, op[0], tuple(op[2:]), what[1],
                sorted("%d,%d:%s" % (t, c, k) for (t, c), k in g["kind"].items())[:12] if o else "none")})
        if r["doubles"]:
            vio.append({"sig": "two-objects-for-one-tract", "msg": "two TractInfo objects for %s" % (r["doubles"][:3],)})
        return {"violations": vio, "steps": r["steps"], "faults": r["count"], "trace": h.hexdigest(),
                "nontrivial": bool(r["hits"] or r["genhits"]), "decisions": r["decisions"],
                "stats": {"lookups": len(todo), "context_switches": r["switches"],
                          "lookups_hit": len(r["hits"]), "lookups_without_a_tract": len(r["genhits"]), "class_" + plan["spec"]["cls"]: 1}}

    def wrong(self, op, a, w, hard):
        if isinstance(a, tuple) and a[:1] == ("raised",):
            return ("%s raised %s" % (op[0], a[1]), "raised %s instead of answering %s" % (a[1], T.short(w, 200)))
        if hard:
            return ("%s hid a failure" % op[0], "a failure (%s) was turned into the answer %s"
                    % (", ".join(sorted(hard)), T.short(a, 200)))
        return ("%s differs" % op[0], T.diff(a, w))


WORLDS = {"C11": C11}
