"""Cooperative scheduler: real threads, exactly one of which may run.

A seeded PRNG (or, on replay, an explicit decision script) picks, at every
line/call (optionally every bytecode instruction) of repository code and at
every entry to the stand-in geometry library, whether the running thread goes
on, hands the token to another one, or suffers a fault.
"""
import _thread
import hashlib
import random
import sys
import threading

mon = sys.monitoring
TOOL = 3
E = mon.events

SIM = None            # the active Simulation, if any
_codes = []
_instrumented = False
_repo_prefix = "/nonexistent"


class SimAbort(BaseException):
    """Unwinds a simulated thread after the run was called off."""


# --------------------------------------------------------------------------
# locks
# --------------------------------------------------------------------------
def _caller_is_repo():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(_repo_prefix):
            return True
        if fn == __file__ or fn.endswith("/threading.py") or fn == "<string>" or fn.endswith("/functools.py"):
            f = f.f_back
            continue
        return False
    return False


class SimLock:
    """Lock whose waiting is decided by the simulator."""
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        sim = SIM
        t = sim.here() if sim is not None else None
        if t is not None:
            sim.point("lock")
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if self._re and self._owner == me:
            self._count += 1
            return True
        if not blocking:
            return False
        if t is None:
            raise RuntimeError("lock can never be released: acquired outside the simulation")
        while self._owner is not None:
            if not sim.block(t, self, timeout >= 0):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._re:
            if self._owner != self._me():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._count = 0
        if SIM is not None:
            SIM.unblock(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == self._me()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __copy__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    # Condition support
    def _release_save(self):
        s = (self._owner, self._count)
        self._owner = None
        self._count = 0
        if SIM is not None:
            SIM.unblock(self)
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count = s[1]


class SimRLock(SimLock):
    _re = True


_realLock = threading.Lock
_realRLock = threading.RLock
_realAlloc = threading._allocate_lock


def install_locks(prefix):
    global _repo_prefix
    _repo_prefix = prefix

    def Lock():
        return SimLock() if _caller_is_repo() else _realLock()

    def RLock():
        return SimRLock() if _caller_is_repo() else _realRLock()

    def _allocate_lock():
        return SimLock() if _caller_is_repo() else _realAlloc()

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = _allocate_lock


# --------------------------------------------------------------------------
# instrumentation
# --------------------------------------------------------------------------
def _on_line(code, line):
    s = SIM
    if s is not None:
        s.point("line")


def _on_start(code, off):
    s = SIM
    if s is not None:
        s.call(code.co_name)


def _on_instr(code, off):
    s = SIM
    if s is not None:
        s.point("op")


def instrument(codes):
    global _codes, _instrumented, _events
    _codes = codes
    _events = None
    if not _instrumented:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, E.LINE, _on_line)
        mon.register_callback(TOOL, E.PY_START, _on_start)
        mon.register_callback(TOOL, E.INSTRUCTION, _on_instr)
        _instrumented = True


_events = None       # the set asked for last


def set_events(lines=True, opcodes=False):
    global _events
    if _events == (lines, opcodes):
        return
    _events = (lines, opcodes)
    ev = E.PY_START
    if lines:
        ev |= E.LINE
    if opcodes:
        ev |= E.INSTRUCTION
    for c in _codes:
        mon.set_local_events(TOOL, c, ev)


def seam(name):
    s = SIM
    if s is not None:
        s.call("~" + name)


# --------------------------------------------------------------------------
# simulation
# --------------------------------------------------------------------------
class _T:
    __slots__ = ("tid", "sem", "state", "wait", "op", "k", "c", "fn", "timed", "slow")

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _realAlloc()
        self.sem.acquire()
        self.state = "new"
        self.wait = None
        self.timed = False
        self.op = -1
        self.k = 0
        self.c = 0
        self.slow = 0


FAIR = 50_000


class Simulation:
    """One run.

    Parameters
    ----------
    strategy : dict
        {"kind": "walk", "p": float} switches with probability p at every
        point; {"kind": "pct", "d": int, "span": int} switches at d points
        drawn from [0, span) plus whenever a thread ends; {"kind": "none"}.
        {"kind": "script", "script": [[tid, op, k, action], ...]} replays.
    faults : dict (op -> [{"at": call index, "kind": str}])
    """

    def __init__(self, seed, strategy, faults=None, max_steps=2_000_000):
        self.rng = random.Random(seed)
        self.strategy = strategy
        self.kind = strategy["kind"]
        self.faults = faults or {}
        self.max_steps = max_steps      # without an operation coming to its end
        self.total = 6*max_steps        # at all: beyond it the run is given up, and proves nothing
        self.mark = 0                   # step at which an operation last ended
        self.turn = 0
        self.nudge = FAIR               # step at which the current thread is made to give way
        self.threads = []
        self.byid = {}
        self.steps = 0
        self.calls = 0
        self.switches = 0
        self.decisions = []      # [tid, op, k, target tid]
        self.fired = []          # [op, at, kind, where]
        self.stop = None         # reason the run was called off
        self.cur = None
        self.trace = hashlib.sha1()
        self.fault_fn = None     # maps kind -> exception
        self.op_calls = {}
        self.done_lock = _realAlloc()
        self.done_lock.acquire()
        self.call_filter = None
        if self.kind == "script":
            self.script = {(d[0], d[1], d[2]): d[3] for d in strategy["script"]}
        elif self.kind == "pct":
            self.change = set(self.rng.randrange(max(1, strategy["span"])) for _ in range(strategy["d"]))
        elif self.kind == "walk":
            self.p = strategy["p"]
        # "gap" sampling keeps the walk cheap: draw how many points to skip
        self._gap = self._draw_gap() if self.kind == "walk" else 0

    def _draw_gap(self):
        import math
        if self.p >= 1:
            return 0
        if self.p <= 0:
            return 1 << 60
        return int(math.log(1.0 - self.rng.random())/math.log(1.0 - self.p))

    # -- thread side ------------------------------------------------------
    def here(self):
        return self.byid.get(_thread.get_ident())

    def point(self, what):
        t = self.byid.get(_thread.get_ident())
        if t is None:
            return
        if self.stop is not None:
            raise SimAbort(self.stop)
        t.k += 1
        self.steps += 1
        if self.steps >= self.nudge:
            self.nudge = self.steps + FAIR
            if self.steps - self.mark > self.max_steps:
                self._call_off("no progress: more than %d steps" % self.max_steps)
            if self.steps > self.total:
                self._call_off("given up: more than %d steps in all" % self.total)
            if self.kind != "script" and self.steps - self.mark > 3*FAIR:
                # every schedule is fair in the end
                r = self._runnable(t)
                if r:
                    self.turn += 1
                    target = r[self.turn % len(r)]
                    self.decisions.append([t.tid, t.op, t.k, target.tid])
                    self._switch(t, target)
                    return
        kind = self.kind
        if kind == "walk":
            if self._gap > 0:
                self._gap -= 1
                return
            self._gap = self._draw_gap()
            target = self._pick(t)
        elif kind == "pct":
            if self.steps not in self.change:
                return
            target = self._pick(t)
        elif kind == "script":
            a = self.script.get((t.tid, t.op, t.k))
            if a is None:
                return
            target = self.threads[a] if a < len(self.threads) else None
            if target is None or target.state != "run" or target is t:
                return
        else:
            return
        if target is None:
            return
        self.decisions.append([t.tid, t.op, t.k, target.tid])
        self._switch(t, target)

    def call(self, name):
        """A call boundary: preemption point, and place where a fault may
        strike."""
        t = self.byid.get(_thread.get_ident())
        if t is None:
            return
        c = t.c
        t.c = c + 1
        self.calls += 1
        self.point("call")
        fl = self.faults.get(t.op)
        if fl:
            for f in fl:
                if f["at"] == c and not f.get("_used"):
                    f["_used"] = True
                    self.fired.append([t.op, c, f["kind"], name])
                    self.trace.update(b"F%d:%d" % (t.op, c))
                    raise self.fault_fn(f["kind"], name)

    def _runnable(self, but=None):
        return [x for x in self.threads if x.state == "run" and x is not but]

    def _pick(self, t):
        r = self._runnable(t)
        if not r:
            return None
        return r[self.rng.randrange(len(r))]

    def _switch(self, t, target):
        self.switches += 1
        self.trace.update(b"%d.%d.%d>%d" % (t.tid, t.op, t.k, target.tid))
        self.cur = target
        target.sem.release()
        t.sem.acquire()
        if self.stop is not None:
            raise SimAbort(self.stop)

    def _call_off(self, why):
        if self.stop is None:
            self.stop = why
            self.done_lock.release()
        # park for ever: the process is about to exit
        x = _realAlloc()
        x.acquire()
        x.acquire()

    def block(self, t, lock, timed):
        """Wait until `lock` may be free.  False if a timed wait gave up."""
        t.state = "blocked"
        t.wait = lock
        t.timed = timed
        target = self._next(t)
        if target is None:
            if timed:
                t.state = "run"
                t.wait = None
                return False
            # a timed waiter elsewhere can give up
            for x in self.threads:
                if x.state == "blocked" and x.timed:
                    x.state = "run"
                    x.wait = "timeout"
                    target = x
                    break
            if target is None:
                self._call_off("deadlock: every live thread waits for a lock")
        self._switch(t, target)
        gave_up = t.wait == "timeout"
        t.wait = None
        t.timed = False
        return not gave_up

    def unblock(self, lock):
        for x in self.threads:
            if x.state == "blocked" and x.wait is lock:
                x.state = "run"
                x.wait = None

    def _next(self, t):
        """Who runs when t cannot go on."""
        r = self._runnable(t)
        if not r:
            return None
        if self.kind == "script":
            a = self.script.get((t.tid, t.op, -t.k - 1))
            for x in r:
                if x.tid == a:
                    return x
            return r[0]
        x = r[self.rng.randrange(len(r))] if len(r) > 1 else r[0]
        if x is not r[0]:
            self.decisions.append([t.tid, t.op, -t.k - 1, x.tid])
        return x

    def begin_op(self, op):
        t = self.byid.get(_thread.get_ident())
        if t is not None:
            t.op = op
            t.k = 0
            t.c = 0
            self.point("begin")

    def end_op(self):
        t = self.byid.get(_thread.get_ident())
        if t is not None:
            self.op_calls[t.op] = t.c
            self.mark = self.steps

    def _body(self, t):
        self.byid[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            t.fn()
        except SimAbort:
            return
        except BaseException as e:      # harness bug: ops catch everything
            import traceback
            self.crash = traceback.format_exc()
            if self.stop is None:
                self.stop = "harness: %r\n%s" % (e, self.crash)
                self.done_lock.release()
            return
        t.state = "done"
        t.op = -2
        target = self._next(t)
        if target is not None:
            self.cur = target
            target.sem.release()
            return
        if any(x.state == "blocked" for x in self.threads):
            for x in self.threads:
                if x.state == "blocked" and x.timed:
                    x.state = "run"
                    x.wait = "timeout"
                    x.sem.release()
                    return
            if self.stop is None:
                self.stop = "deadlock: every live thread waits for a lock"
        self.done_lock.release()

    def run(self, fns):
        """Run the thread functions to completion; returns the stop reason."""
        global SIM
        self.threads = [_T(i, fn) for i, fn in enumerate(fns)]
        for t in self.threads:
            t.state = "run"
            _thread.start_new_thread(self._body, (t,))
        SIM = self
        first = self.threads[0]
        if self.kind == "script":
            a = self.script.get((-1, -1, 0), 0)
            if a < len(self.threads):
                first = self.threads[a]
        elif self.kind != "none" and len(self.threads) > 1:
            first = self.threads[self.rng.randrange(len(self.threads))]
            if first.tid:
                self.decisions.append([-1, -1, 0, first.tid])
        first.sem.release()
        self.done_lock.acquire()
        SIM = None
        return self.stop
