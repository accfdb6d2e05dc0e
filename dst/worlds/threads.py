"""One process: threads sharing live sky maps (C01, C02, C03, C07).

Oracle: self-refinement.  Every answer given in the middle of a simulated
history must be the one a newly built map gives, in a pristine process, when
it is asked nothing else ("golden" answer)."""
import hashlib
import json
import random

from .. import core, forks, ops, scen, sched, universe, vandal

PEX_AT = ("~makeSkyWcs", "~copyAtShiftedPixelOrigin", "~makeCdMatrix")


def tup(x):
    if isinstance(x, (list, tuple)):
        return tuple(tup(v) for v in x)
    return x


def make_fault(kind, name):
    import os
    import lsst.pex.exceptions as px
    if kind == "crash":
        os._exit(137)
    if kind == "wcs":
        if name in PEX_AT:
            return px.RuntimeError("simulated failure in " + name)
        kind = "memory"
    return {"memory": MemoryError, "interrupt": KeyboardInterrupt, "recursion": RecursionError,
            "os": OSError, "invalid": px.InvalidParameterError, "exit": SystemExit,
            "value": ValueError, "system": SystemError,
            "domain": px.DomainError}[kind]("simulated %s fault in %s" % (kind, name))


def plain(M, op):
    return ops.IMPL[op[0]](M, op[1], *op[2:])


def execute(plan, vandal=None, impl=plain, maps=None):
    """The body of a run, in a forked pristine child."""
    import lsst.geom as g
    specs = plan["specs"]
    M = ops.Maps(specs, plan.get("born")) if maps is None else maps
    if not plan.get("lazy"):
        M.build()
    answers = {}
    evs = plan["events"]
    nthreads = 1 + max([e["t"] for e in evs] or [0])
    faults = {}
    for f in plan.get("faults") or []:
        faults.setdefault(f["id"], []).append({"at": f["at"], "kind": f["kind"]})
    strat = {"kind": "script", "script": plan["script"]} if "script" in plan else plan["strategy"]
    sim = sched.Simulation(plan["sched_seed"], strat, faults, plan.get("max_steps", 400000))
    sim.fault_fn = make_fault
    sched.set_events(True, bool(plan.get("opcodes")))
    g._fault = sched.seam

    def body(tid):
        mine = [e for e in evs if e["t"] == tid]

        def go():
            for e in mine:
                sim.begin_op(e["id"])
                try:
                    a = vandal(M, e["op"]) if e["op"][0] == "vandal" else impl(M, e["op"])
                except sched.SimAbort:
                    raise
                except BaseException as x:
                    a = ("raised", type(x).__name__, str(x)[:200])
                answers[e["id"]] = a
                sim.end_op()
        return go

    stop = sim.run([body(t) for t in range(nthreads)])
    g._fault = None
    if stop is not None and stop.startswith("harness"):
        raise RuntimeError(stop)
    out = {"answers": answers, "stop": stop, "steps": sim.steps, "switches": sim.switches,
           "decisions": sim.decisions, "fired": sim.fired, "calls": sim.op_calls,
           "trace": sim.trace.hexdigest(), "audit": {}, "doubles": [],
           "strategy": sim.kind}
    if stop is None:
        for k, op in enumerate(plan.get("audit") or []):
            try:
                out["audit"][k] = impl(M, op)
            except BaseException as x:
                out["audit"][k] = ("raised", type(x).__name__, str(x)[:200])
        out["doubles"] = M.doubles()
    return out


def clean(a):
    """Drop exception messages from an answer."""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "raised":
        return a[:2]
    return a


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b, path=""):
    """First place where two canonical answers differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path or "answer", len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s[%d]" % (path, i))
    return "%s: %s instead of %s" % (path or "answer", short(a, 200), short(b, 200))


class ThreadWorld(core.World):
    nscen = {"quick": 14, "thorough": 60}
    pool = {"quick": 90, "thorough": 400}
    weights = None
    siblings = 0.25      # scenarios that differ little from another one, per scenario
    assumptions = (
        "lsst.geom and lsst.afw.geom are pure-Python stand-ins that pass the repository's own tests",
        "golden answers come from the same code on a fresh map in a fresh process: only history,"
        " interleaving and faults are judged here, the geometry itself by other properties",
        "threads are preempted at every line, call or (in a third of the concurrent runs) bytecode"
        " instruction of repository code",
    )

    # -- scenarios --------------------------------------------------------
    def worker_init(self, w):
        sched.set_events(True, False)       # once, not in every forked run

    def prepare(self):
        rng = random.Random("%s/scen/%d" % (self.prop, self.seed))
        want = self.want_specs(rng, self.nscen[self.tier])
        # scenarios that differ little from another one: state kept outside
        # the map, keyed too coarsely, shows here
        fam = list(range(len(want)))
        n = len(want)
        ways = [scen.sibling_kinds(rng, s["cls"]) for s in want]
        more = []
        for j in range(int(n*self.siblings)):
            w = ways[j % n]
            more.append((j % n, scen.sibling(rng, want[j % n], w[(j//n) % len(w)])))
        for (j, s), ok in zip(more, self.admit([s for _, s in more])):
            if ok:
                want.append(s)
                fam.append(j)
        self.specs = []
        self.surveys = []
        self.pools = []

        fails = []
        # a bad scenario (e.g. a projection that cannot hold it) is dropped
        self.fam = []
        for s, f, sv in zip(want, fam, forks.pmap(lambda a: universe.survey(a[1], seed=a[0]), enumerate(want))):
            if isinstance(sv, Exception):
                fails.append((s, sv.how))
                continue
            self.specs.append(s)
            self.surveys.append(sv)
            self.fam.append(f)
        if len(self.specs) < max(3, len(want)//2):
            raise core.HarnessError("most scenarios cannot be built: %r" % (fails[:2],))
        for j, (s, sv) in enumerate(zip(self.specs, self.surveys)):
            r = random.Random("%s/pool/%d/%d" % (self.prop, self.seed, j))
            self.pools.append(universe.gen_ops(r, self.pool[self.tier], [(s, sv)], self.weights,
                                               focus_size=4))

    def admit(self, specs):
        """Which of these further scenarios the world can use."""
        return [True]*len(specs)

    def want_specs(self, rng, n):
        want = []
        k = 0
        order = ["discrete", "rings0", "healpix", "rings", "dodeca", "equat", "discrete", "rings0"]
        while len(want) < n:
            cls = order[k % len(order)]
            b = ("legacy", "cells")[(k + k//len(order)) % 2]
            if k % 7 == 6:      # a rarer shape
                want.append(scen.exotic(rng, big=False))
            else:
                want.append(scen.gen_spec(rng, cls, b, small=(k % 3 == 0)))
            k += 1
        return want

    # -- golden answers ---------------------------------------------------
    def golden(self, specs, op):
        """(answer, call boundaries passed) of a fresh map, nothing else asked."""
        if op[0] == "eq":
            sp = [specs[op[1]], specs[op[2]]]
            o = [op[0], 0, 1]
            if op[1] == op[2]:
                sp, o = sp[:1], [op[0], 0, 0]
        else:
            sp = [specs[op[1]]]
            o = ["flat" if op[0] == "nest" else op[0], 0] + list(op[2:])
        plan = {"specs": sp, "events": [{"id": 0, "t": 0, "op": o}], "sched_seed": 0,
                "strategy": {"kind": "none"}, "max_steps": 10_000_000}

        def fn():
            def child():
                r = execute(plan)
                return (clean(r["answers"][0]), r["calls"].get(0, 0), r["steps"])
            return forks.call(child)
        return self.store.get(["golden", sp, o], fn)

    def draw(self, rng, j, m, k, focus=None, nm=1):
        """k operations of scenario j's pool, readdressed to map m (of nm)."""
        pool = self.pools[j]
        out = []
        for _ in range(k):
            if focus and rng.random() < 0.75:
                op = rng.choice(focus)
            else:
                op = rng.choice(pool)
            op = [op[0], m] + list(op[2:])
            if op[0] == "eq":
                op[2] = m if nm == 1 or rng.random() < 0.25 else rng.randrange(nm)
            out.append(op)
        return out

    WALKS = ("findTract", "findTract", "findTract", "findAllTracts", "findTractIdArray", "findPatch", "contains",
             "findPatchList", "ring", "tract", "patch", "cell", "seq")

    def burst(self, rng, j, m, k):
        """k operations of one kind in a row."""
        spec, sv = self.specs[j], self.surveys[j]
        if rng.random() < 0.3:      # coordinates next to each other
            return self.twins(rng, spec, sv, m, k)
        if rng.random() < 0.4:
            kind = rng.choice(self.pools[j])[0]
            some = [op for op in self.pools[j] if op[0] == kind]
            return [[kind, m] + list(rng.choice(some)[2:]) for _ in range(k)]
        kind = rng.choice([w for w in self.WALKS if w not in universe.RINGS_ONLY or spec["cls"].startswith("rings")])
        if rng.random() < 0.5:      # from change-over to change-over
            sv = dict(sv, coords=sv["ladder"], tracts=[dict(t, co=sv["ladder"]) for t in sv["tracts"]])
        focus = [rng.choice(sv["tracts"])] if rng.random() < 0.5 else None
        out = []
        for _ in range(4*k):
            op = universe.gen_op(rng, kind, m, spec, sv, focus)
            if op is not None and len(out) < k:
                out.append(op)
        return out

    def twins(self, rng, spec, sv, m, k):
        """Questions about pairs of coordinates that are close, often either side of a border."""
        kinds = ["findTract", "findTract", "findTractIdArray", "findPatch", "contains", "findTractPatchList"]
        if spec["cls"].startswith("rings"):
            kinds.append("findAllTracts")
        kind = rng.choice(kinds)
        tr = rng.choice(sv["tracts"])
        out = []
        while len(out) < k:
            if sv["pairs"] and rng.random() < 0.75:
                pair = list(rng.choice(sv["pairs"]))
            else:
                a = rng.choice(rng.choice((sv["coords"], tr["co"], sv["ladder"])))
                d = rng.choice((1e-12, 1e-9, 1e-7, 1e-5, 1e-3))
                b = [(a[0] + rng.choice((-1, 0, 1))*d) % 6.283185307179586, max(-1.57, min(1.57, a[1] + d))]
                pair = [a, b]
            rng.shuffle(pair)
            for c in pair + pair[:rng.choice((0, 1))]:
                out.append({"findPatch": [kind, m, tr["i"], c], "contains": [kind, m, tr["i"], c],
                            "findTractIdArray": [kind, m, [c], False],
                            "findTractPatchList": [kind, m, [c]]}.get(kind, [kind, m, c]))
        return out

    def kin(self, rng, j):
        """A scenario that is the same, or differs little."""
        kin = [x for x in range(len(self.specs)) if self.fam[x] == self.fam[j]]
        return j if rng.random() < 0.5 else rng.choice(kin)

    def focus(self, rng, j, k=10):
        """Operations of the pool around one or two tracts."""
        pool = self.pools[j]
        ids = [op[2] for op in pool if len(op) > 2 and isinstance(op[2], int)]
        keep = set(rng.sample(ids, min(2, len(ids)))) if ids else set()
        near = [op for op in pool if len(op) <= 2 or not isinstance(op[2], int) or op[2] in keep]
        rng.shuffle(near)
        return near[:k] or pool

    # -- running ------------------------------------------------------------
    vandal = None

    def run(self, plan):
        r = forks.call(lambda: execute(plan, vandal=self.vandal), timeout=180.0)
        return self.judge(plan, r)

    def judge(self, plan, r):
        vio = []
        fired = {}
        for f in r["fired"]:
            fired[f[2]] = fired.get(f[2], 0) + 1
        faulted = {f[0] for f in r["fired"]}
        if r["stop"] is not None:
            sig = "deadlock" if r["stop"].startswith("deadlock") else "no-progress"
            if not r["stop"].startswith("given up"):
                vio.append({"sig": sig, "msg": "the run was called off: " + r["stop"]})
        h = hashlib.sha1(r["trace"].encode())
        for e in plan["events"]:
            if e["op"][0] == "vandal" or e["id"] not in r["answers"]:
                h.update(repr(r["answers"].get(e["id"])).encode())
                continue
            got = tup(r["answers"][e["id"]])
            h.update(repr(clean(got)).encode())
            want = tup(self.golden(plan["specs"], e["op"])[0])
            if clean(got) == want:
                continue
            if e["id"] in faulted and got[:1] == ("raised",) if isinstance(got, tuple) else False:
                continue
            vio.append(self.wrong(e["op"], got, want, "op %d (thread %d)" % (e["id"], e["t"])))
        for k, op in enumerate(plan.get("audit") or []):
            if k not in r["audit"]:
                continue
            got = tup(r["audit"][k])
            h.update(repr(clean(got)).encode())
            want = tup(self.golden(plan["specs"], op)[0])
            if clean(got) != want:
                vio.append(self.wrong(op, got, want, "afterwards"))
        if r["doubles"]:
            vio.append({"sig": "two-objects-for-one-tract",
                        "msg": "two different TractInfo objects were handed out for (map, tract) %s"
                        % (r["doubles"][:3],)})
        return {"violations": vio, "steps": r["steps"], "faults": fired, "trace": h.hexdigest(),
                "nontrivial": self.nontrivial(plan, r), "decisions": r["decisions"],
                "stats": {"operations": len(r["answers"]), "context_switches": r["switches"],
                          "audited_answers": len(r["audit"]),
                          "strategy_" + r["strategy"]: 1,
                          "instruction_level_runs": int(bool(plan.get("opcodes")))}}

    def wrong(self, op, got, want, where):
        if isinstance(got, tuple) and got[:1] == ("raised",):
            what = "raised " + got[1]
            msg = "raised %s instead of answering %s" % (": ".join(got[1:]), short(want, 200))
        else:
            what = "differs"
            msg = diff(got, want)
        return {"sig": "%s %s" % (op[0], what),
                "msg": "%s: %s%r gave a wrong answer: %s" % (where, op[0], tuple(op[1:]), msg)}

    def nontrivial(self, plan, r):
        return len(r["answers"]) > 1

    def finalize(self, plan, outcome):
        p = dict(plan)
        p["script"] = outcome["decisions"]
        p.pop("strategy", None)
        return p

    def lists(self, plan):
        return [k for k in ("script", "events", "faults", "audit") if plan.get(k)]

    def strategy(self, rng):
        r = rng.random()
        if r < 0.55:
            return {"kind": "walk", "p": rng.choice((0.5, 0.2, 0.08, 0.03, 0.01))}
        return {"kind": "pct", "d": rng.randint(1, 6), "span": rng.choice((100, 400, 1500, 6000))}


class C01(ThreadWorld):
    prop = "C01"
    rule = ("a run is one process asking up to 4 maps (built when first asked; often maps that differ in one"
            " setting, asked the same) 20-70 queries drawn from per-scenario pools, singly and in bursts of one"
            " kind (some walking between coordinates either side of a border), by one thread, with natural failures (bad indices, off-map coordinates) mixed in, then"
            " re-asking a sample; non-trivial: at least two queries of one map, on a distinct execution")
    siblings = 1.5
    pool = {"quick": 150, "thorough": 400}
    weights = dict(universe.ALL_OPS, findTract=18, findTractIdArray=9, findAllTracts=8, findTractPatchList=10, ring=8)
    runs = {"quick": 900, "thorough": 40000}

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        nm = rng.choice((1, 1, 2, 2, 3, 4))
        js = [rng.randrange(len(self.specs)) for _ in range(nm)]
        qs = list(js)           # whose pool each map is asked from
        if nm > 1:
            r = rng.random()
            if r < 0.2:
                js[1] = js[0]       # the same configuration twice
            elif r < 0.8:           # and maps that differ little, asked the same things
                kin = [j for j in range(len(self.specs)) if self.fam[j] == self.fam[js[0]]]
                js = [rng.choice(kin) for _ in js]
                qs = [js[0] if rng.random() < 0.8 else j for j in js]
        specs = [self.specs[j] for j in js]
        foc = {j: self.focus(rng, j, 14) for j in qs}
        evs = []
        n = rng.randint(20, 70)
        burst = rng.random() < 0.5
        while len(evs) < n:
            m = rng.randrange(nm)
            if burst and rng.random() < 0.15:       # one kind of query, again and again
                got = self.burst(rng, qs[m], m, rng.randint(3, 12))
                for op in got:
                    if nm > 1 and rng.random() < 0.3:
                        op[1] = rng.randrange(nm)
                    if op[0] == "eq":
                        op[2] = rng.randrange(nm)
            else:
                got = self.draw(rng, qs[m], m, 1, foc[qs[m]], nm)
            for op in got:
                evs.append({"id": len(evs), "t": 0, "op": op})
        audit = []
        for _ in range(12):
            m = rng.randrange(nm)
            audit += self.draw(rng, qs[m], m, 1, foc[qs[m]], nm)
        return {"specs": specs, "lazy": True, "born": ops.births(rng, specs), "events": evs, "audit": audit,
                "sched_seed": i, "strategy": {"kind": "none"}, "max_steps": 3_000_000}


class C02(ThreadWorld):
    prop = "C02"
    rule = ("a run is 2-4 threads asking 1-2 shared maps (equal, nearly so or unrelated; sometimes mostly compared with one another) 3-9 queries each, concentrated on one or two"
            " tracts, under a seeded random walk or few-preemption schedule over lines, calls or"
            " instructions; non-trivial: at least one context switch inside an operation, on a"
            " distinct execution")
    runs = {"quick": 1600, "thorough": 60000}
    weights = dict(universe.ALL_OPS, tract=16, findTract=16, findTractPatchList=12, findAllTracts=10,
                   findClosestTractPatchList=10, iter=3, badtract=1, eqalien=0, len=1, new=2)

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        nm = rng.choice((1, 1, 1, 2))
        js = [rng.randrange(len(self.specs)) for _ in range(nm)]
        if nm == 2 and rng.random() < 0.5:
            js[1] = self.kin(rng, js[0])
        specs = [self.specs[j] for j in js]
        foc = [self.focus(rng, j, rng.choice((2, 4, 8))) for j in js]
        nt = rng.choice((2, 2, 3, 4))
        evs = []
        k = 0
        compare = 0.5 if nm == 2 and rng.random() < 0.4 else 0.0
        for t in range(nt):
            for _ in range(rng.randint(2, 8)):
                m = rng.randrange(nm)
                if rng.random() < compare:      # maps compared with one another, both ways round
                    evs.append({"id": k, "t": t, "op": [rng.choice(("eq", "eq", "eq", "hash", "sha1")), m, 1 - m]})
                    if evs[-1]["op"][0] != "eq":
                        evs[-1]["op"].pop()
                    k += 1
                    continue
                evs.append({"id": k, "t": t, "op": self.draw(rng, js[m], m, 1, foc[m], nm)[0]})
                k += 1
        audit = []
        for e in rng.sample(evs, min(6, len(evs))):
            audit.append(e["op"])
        return {"specs": specs, "born": ops.births(rng, specs), "events": evs, "audit": audit, "sched_seed": i,
                "strategy": self.strategy(rng), "opcodes": rng.random() < 0.33,
                "max_steps": 4_000_000}

    def nontrivial(self, plan, r):
        return r["switches"] > 0


class C03(ThreadWorld):
    prop = "C03"
    rule = ("a run is 1-3 threads asking 1-2 maps 4-14 queries each, with 1-6 faults (out of memory,"
            " interrupt, recursion limit, OS error, WCS construction failure) striking at seeded call"
            " boundaries inside queries; queries are then repeated; non-trivial: a fault fired inside"
            " an operation, on a distinct execution")
    runs = {"quick": 1600, "thorough": 60000}

    kinds = ("memory", "interrupt", "recursion", "os", "wcs", "exit", "value")

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        nm = rng.choice((1, 1, 2))
        js = [rng.randrange(len(self.specs)) for _ in range(nm)]
        if nm == 2 and rng.random() < 0.5:
            js[1] = self.kin(rng, js[0])
        specs = [self.specs[j] for j in js]
        foc = [self.focus(rng, j, rng.choice((3, 6, 10))) for j in js]
        nt = rng.choice((1, 1, 2, 3))
        evs = []
        faults = []
        k = 0
        for t in range(nt):
            for _ in range(rng.randint(3, 10)):
                m = rng.randrange(nm)
                op = self.draw(rng, js[m], m, 1, foc[m], nm)[0]
                reps = 1
                if rng.random() < 0.4:
                    n = max(1, self.golden(specs, op)[1])
                    # early calls are inside map code, late ones in canonicalisation
                    at = int(n*rng.random()**1.3)
                    faults.append({"id": k, "at": at, "kind": rng.choice(self.kinds)})
                    reps = rng.choice((1, 2, 2))
                for _ in range(reps):
                    evs.append({"id": k, "t": t, "op": op})
                    k += 1
        audit = [e["op"] for e in evs]
        rng.shuffle(audit)
        audit = audit[:14]
        return {"specs": specs, "born": ops.births(rng, specs), "events": evs, "faults": faults, "audit": audit,
                "sched_seed": i,
                "strategy": self.strategy(rng) if nt > 1 else {"kind": "none"},
                "max_steps": 4_000_000}

    def nontrivial(self, plan, r):
        return bool(r["fired"])


class C07(ThreadWorld):
    prop = "C07"
    rule = ("a run is 1-2 threads asking 1-2 maps 6-20 queries while a caller modifies, at 2-8 points"
            " of the history, configurations, boxes, extents, containers and arrays it passed in or got"
            " back, often asking before and after for the very thing it modified; non-trivial: at least one such"
            " modification was carried out or refused and queries"
            " followed it, on a distinct execution")
    runs = {"quick": 1400, "thorough": 40000}
    weights = dict(universe.ALL_OPS, bufarray=12, bufcoords=8, bufindex=6)
    vandal = staticmethod(vandal.act)

    def plan(self, i):
        rng = random.Random("%s/%d/%d" % (self.prop, self.seed, i))
        nm = rng.choice((1, 1, 2))
        js = [rng.randrange(len(self.specs)) for _ in range(nm)]
        if nm == 2 and rng.random() < 0.5:
            js[1] = js[0]
        specs = [self.specs[j] for j in js]
        foc = [self.focus(rng, j, rng.choice((3, 6, 12))) for j in js]
        nt = rng.choice((1, 1, 2))
        evs = []
        k = 0
        for t in range(nt):
            for _ in range(rng.randint(6, 16)):
                m = rng.randrange(nm)
                if rng.random() < 0.35:
                    sv = self.surveys[js[m]]
                    near = [op[2] for op in foc[m] if len(op) > 2 and isinstance(op[2], int)]
                    trs = [x for x in sv["tracts"] if x["i"] in near] or sv["tracts"]
                    tr = rng.choice(trs)
                    op = ["vandal", m, rng.choice(vandal.KINDS), rng.randrange(1000), tr["i"],
                          rng.randrange(tr["nx"]), rng.randrange(tr["ny"]),
                          universe.cluster(rng, tr, sv, rng.randint(1, 3))]
                    if rng.random() < 0.1 and op[2] in ("list_findTractPatchList", "list_findPatchList", "list_closest",
                                                        "args_coords"):
                        op[7] = []
                    again = self.again(rng, op, specs[m]) if rng.random() < 0.6 else None
                    if again:       # the same thing is asked after (and maybe before) the caller's doings
                        if rng.random() < 0.4:
                            evs.append({"id": k, "t": t, "op": again})
                            k += 1
                        evs.append({"id": k, "t": t, "op": op})
                        k += 1
                        op = again
                else:
                    op = self.draw(rng, js[m], m, 1, foc[m], nm)[0]
                evs.append({"id": k, "t": t, "op": op})
                k += 1
        audit = []
        for _ in range(10):
            m = rng.randrange(nm)
            audit += self.draw(rng, js[m], m, 1, foc[m], nm)
        return {"specs": specs, "born": ops.births(rng, specs), "lazy": nt == 1 and rng.random() < 0.5, "events": evs, "audit": audit,
                "sched_seed": i,
                "strategy": self.strategy(rng) if nt > 1 else {"kind": "none"},
                "max_steps": 4_000_000}

    @staticmethod
    def again(rng, op, spec):
        """A question whose answer the caller's doings concern."""
        _, m, kind, r, i, x, y, cos = op
        if kind == "list_findAll":
            return ["findAllTracts", m, cos[0]] if cos and spec["cls"].startswith("rings") else None
        name = {"list_findTractPatchList": "findTractPatchList", "list_closest": "findClosestTractPatchList",
                "args_coords": "findTractPatchList"}.get(kind)
        if name:
            return [name, m, cos]
        if kind in ("list_findPatchList", "patches_of_list"):
            return ["findPatchList", m, i, cos]
        if kind in ("array", "args_array"):
            return ["findTractIdArray", m, cos, False]
        if kind == "found_tract":
            return ["findTract", m, cos[0]] if cos else None
        if kind in ("patchinner", "patchouter", "args_index"):
            return ["patch", m, i, "tuple", x, y, 0]
        if kind in ("cellbox", "cellouter", "cellinnerdims"):
            return ["cell", m, i, x, y, "tuple", 0, 0, 0]
        return [rng.choice(("tract", "light", "sky", "attrs")), m, i]

    def nontrivial(self, plan, r):
        return any(isinstance(a, tuple) and a[:1] in (("done",), ("refused",))
                   for a in r["answers"].values())


WORLDS = {"C07": C07, "C01": C01, "C02": C02, "C03": C03}
