"""Seeds -> plans -> forked runs -> minimised, replayable violations -> evidence."""
import hashlib
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import bootstrap, forks

VERIF = bootstrap.VERIF
EVID = os.environ.get("VP_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


class HarnessError(Exception):
    pass


class Store:
    """Memo shared between the workers of one check: scratch files."""

    def __init__(self, path):
        self.path = path
        self.mem = {}
        os.makedirs(path, exist_ok=True)

    def get(self, key, fn):
        h = digest(key)
        if h in self.mem:
            return self.mem[h]
        p = os.path.join(self.path, h)
        try:
            with open(p, "rb") as f:
                v = pickle.load(f)
        except FileNotFoundError:
            v = fn()
            t = "%s.%d" % (p, os.getpid())
            with open(t, "wb") as f:
                pickle.dump(v, f)
            os.replace(t, p)
        self.mem[h] = v
        return v


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_for(prop, sig):
    for k in load_known():
        if k["property"] == prop and k["signature"] == sig:
            return k
    return None


class World:
    """One property's simulated world.  Subclasses define the rest."""
    prop = "?"
    #: which parts ran as real code, and which as stand-ins
    real = ("lsst.skymap (/repo/python)", "lsst.pex.config", "lsst.sphgeom", "numpy")
    stubs = ("lsst.geom, lsst.afw.geom, lsst.pex.exceptions (dst.stubs)",)
    level = "exploration"
    rule = ""
    runs = {"quick": 400, "thorough": 20000}
    cap_s = {"quick": 420.0, "thorough": float(os.environ.get("DST_CAP_S", "780"))}
    needs_butler = False

    def __init__(self, tier, seed, scratch):
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.store = Store(os.path.join(scratch, "store"))

    def prepare(self):
        """In the parent, before the workers are forked."""

    def worker_init(self, w):
        """In each worker."""

    def worker_end(self):
        pass

    def plan(self, i):
        """The plan of run i: JSON data, a function of (self.seed, i)."""
        raise NotImplementedError

    def run(self, plan):
        """Outcome: dict with violations [{sig, msg}], trace, steps, faults
        {kind: n}, nontrivial, decisions (thread worlds), sample."""
        raise NotImplementedError

    def finalize(self, plan, outcome):
        """A plan that replays this very outcome without the PRNG."""
        return plan

    def lists(self, plan):
        """Names of the lists in the plan that may be thinned out."""
        return [k for k in ("events", "faults", "script") if plan.get(k)]

    def describe(self, plan):
        return {k: plan[k] for k in plan if k != "script"}


# --------------------------------------------------------------------------
def _safe_run(world, plan):
    try:
        return world.run(plan)
    except forks.ChildFailed as e:
        return {"harness": "child: " + e.how, "violations": []}
    except HarnessError as e:
        return {"harness": str(e), "violations": []}
    except Exception:
        return {"harness": traceback.format_exc(), "violations": []}


def _worker(world, w, W, n, shared, fd, deadline):
    world.worker_init(w)
    for i in range(w, n, W):
        stop_at = struct.unpack_from("<q", shared, 0)[0]
        if i > stop_at:
            break
        if time.monotonic() > deadline:
            break
        try:
            plan = world.plan(i)
            t = time.monotonic()
            out = _safe_run(world, plan)
            out["wall"] = time.monotonic() - t
        except Exception:
            plan, out = None, {"harness": traceback.format_exc(), "violations": []}
        new = [v for v in out["violations"] if not known_for(world.prop, v["sig"])]
        if out.get("harness"):
            out["plan"] = plan          # a later run may still tell more
        if new:
            # lowest index wins, so the verdict does not depend on the workers
            cur = struct.unpack_from("<q", shared, 0)[0]
            if i < cur:
                struct.pack_into("<q", shared, 0, i)
            out["plan"] = plan
        if i < 3:
            out["sample"] = world.describe(plan) if plan else None
        out["i"] = i
        out.pop("answers", None)
        data = pickle.dumps(out)
        _writeall(fd, struct.pack("<Q", len(data)) + data)
    world.worker_end()


def _writeall(fd, data):
    mv = memoryview(data)
    while mv:
        mv = mv[os.write(fd, mv[:1 << 16]):]


def sweep(world, n, workers, cap):
    """Run plans 0..n-1 over forked workers; outcomes ordered by index."""
    shared = mmap.mmap(-1, 16)
    struct.pack_into("<q", shared, 0, n)
    deadline = time.monotonic() + cap
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for p in procs:
                    os.close(p[1])
                _worker(world, w, workers, n, shared, wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    outs = {}
    bufs = {r: bytearray() for _, r in procs}
    open_ = set(bufs)
    while open_:
        for r in select.select(list(open_), [], [], 1.0)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                open_.discard(r)
                os.close(r)
                continue
            buf = bufs[r]
            buf += b
            while len(buf) >= 8:
                L = struct.unpack("<Q", bytes(buf[:8]))[0]
                if len(buf) < 8 + L:
                    break
                o = pickle.loads(bytes(buf[8:8 + L]))
                outs[o["i"]] = o
                del buf[:8 + L]
    bad = 0
    for pid, _ in procs:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    stop_at = struct.unpack_from("<q", shared, 0)[0]
    res = [outs[i] for i in sorted(outs) if i <= stop_at]
    return res, bad


# --------------------------------------------------------------------------
def minimise(world, plan, sig, budget_s=60.0):
    """Delta-debug the plan's lists while the same violation shows."""
    end = time.monotonic() + budget_s
    trials = [0]

    def fails(p):
        trials[0] += 1
        o = _safe_run(world, p)
        return any(v["sig"] == sig for v in o["violations"])

    if not fails(plan):
        return plan, trials[0], False
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for key in world.lists(plan):
            items = list(plan[key])
            n = 2
            # the empty list first
            if items:
                p = dict(plan)
                p[key] = []
                if fails(p):
                    plan = p
                    changed = True
                    continue
            while len(items) >= 2 and time.monotonic() < end:
                size = max(1, len(items)//n)
                cut = False
                for a in range(0, len(items), size):
                    rest = items[:a] + items[a + size:]
                    p = dict(plan)
                    p[key] = rest
                    if fails(p):
                        items = rest
                        plan = p
                        n = max(2, n - 1)
                        cut = changed = True
                        break
                    if time.monotonic() > end:
                        break
                if not cut:
                    if size == 1:
                        break
                    n = min(len(items), n*2)
    return plan, trials[0], True


def evidence(world, outs, wall, extra, nviol):
    ran = len(outs)
    faults = {}
    traces = set()
    nontrivial = set()
    steps = 0
    stats = {}
    for o in outs:
        steps += o.get("steps", 0)
        for k, v in o.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        if o.get("trace"):
            traces.add(o["trace"])
            if o.get("nontrivial"):
                nontrivial.add(o["trace"])
        for k, v in o.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
    cov = {
        "evaluations": ran,
        "distinct_nontrivial": len(nontrivial),
        "rule": world.rule,
        "samples": [jsonable(o["sample"]) for o in outs if o.get("sample")][:3] or ["none"],
        "runs_per_hour": round(ran/wall*3600) if wall > 0 else 0,
        "seeds": "run i uses seed (%d, i), i = 0..%d" % (world.seed, max(0, ran - 1)),
        "simulated_steps": steps,
        "simulated_time": "the package reads no clock: simulated time is counted in scheduler steps"
                          " (preemption points reached)",
        "faults_fired": dict(sorted(faults.items())),
        "distinct_executions": len(traces),
        "distinct_measure": "digest over every scheduling decision, fired fault and answer of a run",
        "components_real": list(world.real),
        "components_stubbed": list(world.stubs),
        "counts": dict(sorted(stats.items())),
    }
    cov.update(extra)
    ev = {
        "property": world.prop, "tier": world.tier, "seed": world.seed, "level": world.level,
        "coverage": cov,
        "assumptions": list(getattr(world, "assumptions", ())),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, world.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(p + ".tmp", p)


def make_scratch(prop):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        return tempfile.mkdtemp(prefix="dst-%s-" % prop, dir=base)
    except OSError:
        return tempfile.mkdtemp(prefix="dst-%s-" % prop)


def check(make_world, tier, seed, runs=None, workers=None):
    """The whole check; returns the exit status."""
    t0 = time.monotonic()
    scratch = make_scratch("x")
    world = None
    try:
        world = make_world(tier, seed, scratch)
        world.prepare()
        n = runs or int(os.environ.get("DST_RUNS", 0)) or world.runs[tier]
        W = workers or int(os.environ.get("DST_WORKERS", 0)) or min(8, os.cpu_count() or 1)
        outs, bad = sweep(world, n, W, world.cap_s[tier])
        wall = time.monotonic() - t0
        harness = [o for o in outs if o.get("harness")]
        known = {}
        firsts = []
        for o in outs:
            for v in o["violations"]:
                k = known_for(world.prop, v["sig"])
                if k:
                    known[k["signature"]] = k
                else:
                    firsts.append((o, v))
        status = 0
        extra = {"planned_runs": n, "workers": W, "known_findings_seen": sorted(known)}
        if os.environ.get("DST_DIGEST"):
            print("DIGEST %s" % digest([[o["i"], o.get("trace"), o["violations"]] for o in outs]))
        if firsts:
            o, v = firsts[0]
            path, info = report(world, o, v)
            extra["violation"] = info
            evidence(world, outs, wall, extra, len(firsts))
            print("seed (%d, %d): %s" % (seed, o["i"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (world.prop, path))
            status = 1
        elif harness or bad:
            for o in harness[:2]:
                sys.stderr.write("harness error in run %s:\n%s\n" % (o["i"], o["harness"]))
            extra["harness_errors"] = len(harness) + bad
            evidence(world, outs, wall, extra, 0)
            status = 2
        else:
            evidence(world, outs, wall, extra, 0)
            for k in known.values():
                print("KNOWN-FINDING: property=%s %s" % (world.prop, k["what"]))
            if len(outs) < n:
                print("note: time cap reached after %d of %d runs" % (len(outs), n))
            if not outs:
                status = 2
            print("%s held on %d simulated runs (%.1f s)" % (world.prop, len(outs), time.monotonic() - t0))
        return status
    finally:
        if world is not None:
            try:
                world.close()
            except AttributeError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def report(world, o, v):
    plan = world.finalize(o["plan"], o)
    world.worker_init(0)
    small, trials, stable = minimise(world, plan, v["sig"],
                                     60.0 if world.tier == "quick" else 180.0)
    if not stable:      # the scripted form differs: keep the seeded plan
        small = o["plan"]
    out = _safe_run(world, small)
    msg = next((x["msg"] for x in out["violations"] if x["sig"] == v["sig"]), v["msg"])
    rep = {"property": world.prop, "seed": world.seed, "run": o["i"], "tier": world.tier,
           "signature": v["sig"], "message": msg, "plan": small,
           "outcome": digest([out.get("trace"), out["violations"]]),
           "minimised": stable, "minimisation_runs": trials,
           "original_sizes": {k: len(plan[k]) for k in world.lists(plan)},
           "sizes": {k: len(small.get(k) or []) for k in world.lists(plan)}}
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (world.prop, world.seed, o["i"]))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
        f.write("\n")
    world.worker_end()
    # replay in a fresh interpreter must give the very same outcome
    try:
        p = subprocess.run([sys.executable, "-m", "dst.check", world.prop, "--replay", path],
                           cwd=VERIF, capture_output=True, text=True, timeout=120)
        same = p.returncode == 1 and ("outcome " + rep["outcome"]) in p.stdout
    except subprocess.TimeoutExpired:
        same = False
    rep["replay_confirmed"] = same
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
        f.write("\n")
    return path, {k: rep[k] for k in ("run", "signature", "message", "minimised", "sizes",
                                      "original_sizes", "replay_confirmed")}


def replay(make_world, path):
    with open(path) as f:
        rep = json.load(f)
    scratch = make_scratch("r")
    world = None
    try:
        world = make_world(rep["tier"], rep["seed"], scratch)
        world.replaying = True
        world.worker_init(0)
        out = _safe_run(world, rep["plan"])
        world.worker_end()
        if out.get("harness"):
            sys.stderr.write(out["harness"] + "\n")
            return 2
        print("outcome %s (recorded %s)" % (digest([out.get("trace"), out["violations"]]), rep["outcome"]))
        hit = [v for v in out["violations"] if v["sig"] == rep["signature"]]
        if hit:
            print(hit[0]["msg"])
            print("VIOLATION property=%s replay=%s" % (world.prop, path))
            return 1
        print("not reproduced")
        return 0
    finally:
        if world is not None and hasattr(world, "close"):
            world.close()
        shutil.rmtree(scratch, ignore_errors=True)


def kill_quietly(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
