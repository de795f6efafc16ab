"""Deterministic simulator core: seeds, tracing, the thread scheduler, fault
injection, run isolation, minimisation and evidence.

Everything random in a run comes from its *plan*, which is a pure function of
(VERIF_SEED, property, run index).  Executing a plan is a pure function of the
plan and the code under test.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import threading
import time
import traceback
import _thread

from numpy.linalg import LinAlgError

REPO_SRC = "/repo/src"
RIGEO_DIR = REPO_SRC + "/rigeo/"
SCRIPTS_DIR = "/repo/scripts/"

_real_perf = time.perf_counter
_RealLock = _thread.allocate_lock


# --------------------------------------------------------------------- errors
class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg, **data):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.data = data


class SimStuck(BaseException):
    """The code under test exceeded its step budget."""


class SimAbort(BaseException):
    """Raised in parked threads when a run ends early."""


class InjectedError(Exception):
    """A failing dependency."""


FAULT_EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "InjectedError": InjectedError,
    "OSError": OSError,
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "FloatingPointError": FloatingPointError,
    "ZeroDivisionError": ZeroDivisionError,
    "LinAlgError": LinAlgError,
    "StopIteration": StopIteration,
    "TimeoutError": TimeoutError,
}


def make_exc(name):
    e = FAULT_EXC[name]("simulated fault")
    e._simulated = True
    return e


def is_simulated(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if getattr(e, "_simulated", False):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


# ----------------------------------------------------------------- sim locks
CURRENT = None  # the active Sched, if any


class SimLock:
    """Cooperative stand-in for locks created by the code under test."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._count == 0 or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking or timeout >= 0:
                return False
            if CURRENT is None or not CURRENT.block_on(self):
                raise SimStuck("deadlock: lock is held and nobody else runs")

    def release(self):
        if self._count == 0:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock object")

    # used by threading.Condition
    def _is_owned(self):
        return self._count > 0 and self._owner == _thread.get_ident()


def install_lock_seam():
    """Locks made from rigeo code become simulator-controlled."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_rigeo():
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(RIGEO_DIR):
                return True
            f = f.f_back
        return False

    def Lock():
        return SimLock(False) if from_rigeo() else real_lock()

    def RLock():
        return SimLock(True) if from_rigeo() else real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock


# -------------------------------------------------------------------- tracer
def _watched(fn, _c={}):
    r = _c.get(fn)
    if r is None:
        r = _c[fn] = fn.startswith(RIGEO_DIR)
    return r


class Tracer:
    """Single-task line tracer over the code under test: a step counter, a step
    budget, one-shot fault injection and an optional per-step hook."""

    def __init__(self, budget=2_000_000, opcode=False, watched=_watched):
        self.budget = budget
        self.opcode = opcode
        self.watched = watched
        self.steps = 0
        self.fault_at = None
        self.fault_exc = None
        self.fired = 0
        self.fired_where = None
        self.hook = None

    def _g(self, frame, event, arg):
        if self.watched(frame.f_code.co_filename):
            if self.opcode and self.fault_at is None:
                frame.f_trace_opcodes = True
            return self._l
        return None

    def _l(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.steps += 1
            # CPython 3.12 may crash when a trace function raises at an 'opcode'
            # event, so exceptions are only delivered at the next line
            if self.fault_at is not None and self.steps >= self.fault_at and not self.fired and event == "line":
                self.fired += 1
                self.fired_where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name}"
                if callable(self.fault_exc):
                    self.fault_exc(self.fired_where)  # does not return
                raise make_exc(self.fault_exc)
            if self.hook is not None:
                self.hook(frame)
            if self.steps > self.budget and event == "line":
                raise SimStuck(
                    f"no end after {self.budget} steps, in {frame.f_code.co_name}"
                )
        return self._l

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)


# ----------------------------------------------------------------- scheduler
class Sched:
    """Runs tasks as real threads of which exactly one is ever released; which
    one runs is decided here, at every line (or bytecode) of rigeo code."""

    def __init__(self, spec, budget=3_000_000):
        self.spec = spec
        # CPython 3.12 may crash when an exception leaves a trace function while
        # bytecode events are on: runs with interrupts are traced by line
        self.opcode = spec.get("gran") == "opcode" and not spec.get("faults")
        self.policy = spec.get("policy", "explicit")
        self.rng = random.Random(spec.get("seed", 0))
        self.explicit = None
        if "switches" in spec:
            self.explicit = {float(s): int(t) for s, t in spec["switches"]}
        self.p = spec.get("p", 0.1)
        self.steps = 0
        self.budget = budget
        self.switches = []
        self.aborted = False
        self.fault_spec = [(int(t), int(s), e) for t, s, e in spec.get("faults", [])]
        self.fired = []
        self.sites = set()
        self.deadlock = False

    def run(self, fns):
        global CURRENT
        n = len(fns)
        self.n = n
        self.sems = [_RealLock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.main = _RealLock()
        self.main.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.tsteps = [0] * n
        self.results = [None] * n
        self.tid = {}
        self.faults = [sorted((s, e) for t, s, e in self.fault_spec if t == i) for i in range(n)]
        if self.policy == "pct":
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            d = self.spec.get("depth", 3)
            k = self.spec.get("horizon", 2000)
            self.changes = {self.rng.randrange(1, k): i for i in range(d)}
        CURRENT = self
        threads = []
        ready = _RealLock()
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        # wait until everybody registered
        while len(self.tid) < n:
            time.sleep(0)
        first = self.explicit.get(0, 0) if self.explicit is not None else self._pick(None)
        if first >= n:
            first = 0
        self.switches.append((0, first))
        self.cur = first
        self.sems[first].release()
        self.main.acquire()
        CURRENT = None
        return self.results

    def _runnable(self):
        return [
            i
            for i in range(self.n)
            if not self.done[i]
            and (self.blocked[i] is None or not self.blocked[i].locked())
        ]

    def _pick(self, cur):
        r = self._runnable()
        if not r:
            return None
        if self.policy == "pct":
            return min(r, key=lambda i: self.prio[i])
        return r[self.rng.randrange(len(r))]

    def _body(self, i, fn):
        self.tid[_thread.get_ident()] = i
        self.sems[i].acquire()
        try:
            if self.aborted:
                return
            sys.settrace(self._g)
            try:
                self.results[i] = ("ok", fn())
            finally:
                sys.settrace(None)
        except SimAbort:
            self.results[i] = ("abort", None)
        except BaseException as e:
            self.results[i] = ("exc", e)
        finally:
            self.done[i] = True
            self._handoff(i)

    def _handoff(self, i):
        if all(self.done):
            self.main.release()
            return
        nxt = None
        if self.explicit is not None:
            nxt = self.explicit.get(self.steps + 0.5)
        if nxt is None or nxt not in self._runnable():
            r = self._runnable()
            if not r:
                # every remaining task waits for a lock nobody will release
                self.deadlock = True
                self.aborted = True
                r = [j for j in range(self.n) if not self.done[j]]
                nxt = r[0]
            elif self.explicit is not None:
                nxt = r[0]
            else:
                nxt = self._pick(i)
        self.cur = nxt
        self.switches.append((self.steps + 0.5, nxt))
        self.sems[nxt].release()

    def _switch(self, i, nxt):
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[i].acquire()
        if self.aborted:
            raise SimAbort()

    def block_on(self, lock):
        i = self.tid.get(_thread.get_ident())
        if i is None:
            return False
        self.blocked[i] = lock
        r = [j for j in self._runnable() if j != i]
        if not r:
            self.deadlock = True
            self.aborted = True
            raise SimStuck("deadlock")
        self.steps += 1
        if self.explicit is not None:
            nxt = self.explicit.get(self.steps)
            if nxt not in r:
                nxt = r[0]
        else:
            nxt = r[self.rng.randrange(len(r))]
        self.switches.append((self.steps, nxt))
        self._switch(i, nxt)
        self.blocked[i] = None
        return True

    def _g(self, frame, event, arg):
        if _watched(frame.f_code.co_filename):
            if self.opcode:
                frame.f_trace_opcodes = True
            return self._l
        return None

    def _l(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame, event == "line")
        return self._l

    def point(self, frame=None, may_raise=True):
        """A yield point of the running task."""
        i = self.tid.get(_thread.get_ident())
        if i is None:
            return
        self.steps += 1
        self.tsteps[i] += 1
        if may_raise:
            if self.steps > self.budget:
                raise SimStuck(f"no end after {self.budget} steps")
            fl = self.faults[i]
            if fl and fl[0][0] <= self.tsteps[i]:
                _, f = fl.pop(0)
                self.fired.append((i, self.tsteps[i], f))
                if frame is not None:
                    self.sites.add(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name}")
                raise make_exc(f)
        nxt = None
        if self.explicit is not None:
            nxt = self.explicit.get(self.steps)
            if nxt is not None and (nxt == i or nxt not in self._runnable()):
                nxt = None
        elif self.policy == "pct":
            if self.steps in self.changes:
                self.prio[i] = self.n + self.changes[self.steps]
            nxt = self._pick(i)
            if nxt == i:
                nxt = None
        elif self.policy == "lockstep":
            r = [j for j in self._runnable() if j != i]
            nxt = min(r, key=lambda j: (self.tsteps[j], j)) if r else None
        else:
            if self.rng.random() < self.p:
                nxt = self._pick(i)
                if nxt == i:
                    nxt = None
        if nxt is not None:
            self.switches.append((self.steps, nxt))
            self._switch(i, nxt)

    def check(self):
        """Turn scheduler-level failures into violations."""
        if self.deadlock:
            raise Violation("deadlock", "all tasks wait for locks")
        for i, r in enumerate(self.results):
            if r is not None and r[0] == "exc" and isinstance(r[1], SimStuck):
                raise Violation("stuck", f"task {i}: {r[1]}")

    def explicit_spec(self):
        s = {k: v for k, v in self.spec.items() if k in ("gran", "faults")}
        s["policy"] = "explicit"
        s["switches"] = [list(x) for x in self.switches]
        return s


def retrace():
    """CPython unsets a trace function that raised; a task that survives an
    injected exception calls this to become visible to the scheduler again."""
    if CURRENT is not None and _thread.get_ident() in CURRENT.tid:
        sys.settrace(CURRENT._g)


def gen_sched(rng, nthreads):
    pol = rng.choice(["rand", "rand", "rand", "lockstep", "pct"])
    s = {"policy": pol, "seed": rng.randrange(1 << 30)}
    s["gran"] = "opcode" if rng.random() < 0.35 else "line"
    if pol == "rand":
        s["p"] = rng.choice([0.02, 0.1, 0.1, 0.5])
    if pol == "pct":
        s["depth"] = rng.choice([2, 3, 5])
        s["horizon"] = rng.choice([50, 300, 2000])
    return s


# ------------------------------------------------------------------ isolation
def fork_call(fn, timeout=300.0, mem_gb=8):
    """Run fn() in a fork of this process; returns (status, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            except Exception:
                pass
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa
                out = ("exc", (type(e).__name__, str(e), traceback.format_exc()))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(("exc", ("PickleError", str(e), "")))
            data = struct.pack("<Q", len(data)) + data
            off = 0
            while off < len(data):
                off += os.write(w, data[off : off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    end = _real_perf() + timeout
    timed_out = False
    while True:
        left = end - _real_perf()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return "timeout", None
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8:
        return "died", (os.WTERMSIG(st) if os.WIFSIGNALED(st) else st)
    return pickle.loads(bytes(buf[8:]))


class Pristine:
    """A server forked before anything happened in this run; every request is
    executed in its own fork of that untouched process."""

    def __init__(self, handler):
        self.req_r, self.req_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.req_w)
                os.close(self.res_r)
                self._serve(handler)
            finally:
                os._exit(0)
        os.close(self.req_r)
        os.close(self.res_w)

    @staticmethod
    def _rd(fd, n):
        b = bytearray()
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return bytes(b)

    @classmethod
    def _recv(cls, fd):
        h = cls._rd(fd, 8)
        if h is None:
            return None
        d = cls._rd(fd, struct.unpack("<Q", h)[0])
        return None if d is None else pickle.loads(d)

    @staticmethod
    def _send(fd, obj):
        d = pickle.dumps(obj)
        d = struct.pack("<Q", len(d)) + d
        off = 0
        while off < len(d):
            off += os.write(fd, d[off : off + 65536])

    def _serve(self, handler):
        while True:
            req = self._recv(self.req_r)
            if req is None:
                return
            self._send(self.res_w, fork_call(lambda: handler(req), timeout=200))

    def __call__(self, req):
        self._send(self.req_w, req)
        res = self._recv(self.res_r)
        if res is None:
            raise RuntimeError("pristine server died")
        st, v = res
        if st == "ok":
            return v
        if st == "exc":
            raise RuntimeError(f"pristine evaluation failed: {v[0]} {v[1]}\n{v[2]}")
        raise RuntimeError(f"pristine evaluation: {st} {v}")

    def close(self):
        os.close(self.req_w)
        os.close(self.res_r)
        os.waitpid(self.pid, 0)


# ------------------------------------------------------------------- contexts
class Ctx:
    """Per-run bookkeeping."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.events = []
        self.sched = None  # explicit schedule actually taken
        self.evals = 0
        self.sites = set()  # where faults hit
        self._sig = hashlib.sha1()

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self._sig.update(s.encode() + b"\n")
        if len(self.events) < 400:
            self.events.append(s)

    def sig(self):
        return self._sig.hexdigest()


def from_code_under_test(tb_text):
    return RIGEO_DIR in tb_text or SCRIPTS_DIR in tb_text


UNUSABLE = (TypeError, ValueError, AttributeError, IndexError, KeyError, AssertionError, ZeroDivisionError)


def execute(mod, plan):
    """Execute a plan in this process. Returns a result dict."""
    ctx = Ctx()
    res = {"status": "ok"}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": v.msg, "data": v.data}
    except SimStuck as e:
        res = {"status": "violation", "kind": "stuck", "msg": str(e), "data": {}}
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if from_code_under_test(tb) and not isinstance(e, (SystemExit,)):
            last = [l for l in tb.splitlines() if RIGEO_DIR in l or SCRIPTS_DIR in l][-1]
            res = {
                "status": "violation",
                "kind": f"raised-{type(e).__name__}",
                "msg": f"{type(e).__name__}: {e} ({last.strip()})",
                "data": {"traceback": tb[-3000:]},
            }
        elif isinstance(e, UNUSABLE):
            # the harness could not make sense of what the code returned
            res = {
                "status": "violation",
                "kind": f"unusable-result-{type(e).__name__}",
                "msg": f"{type(e).__name__}: {e} ({tb.strip().splitlines()[-3].strip()})",
                "data": {"traceback": tb[-3000:]},
            }
        else:
            res = {"status": "error", "msg": f"{type(e).__name__}: {e}", "tb": tb}
    res["faults"] = ctx.faults
    res["probes"] = ctx.probes
    res["steps"] = ctx.steps
    res["events"] = ctx.events
    res["sig"] = ctx.sig()
    res["sched"] = ctx.sched
    res["sites"] = sorted(ctx.sites)
    res["evals"] = max(1, ctx.evals)
    return res


def run_isolated(mod, plan, timeout=300):
    if hasattr(mod, "prepare"):
        mod.prepare(plan)
    st, v = fork_call(lambda: execute(mod, plan), timeout=timeout)
    if st == "ok":
        return v
    if hasattr(mod, "abandon"):
        mod.abandon()
    base = {"faults": {}, "probes": {}, "steps": 0, "events": [], "sig": "", "sched": None, "evals": 1, "sites": []}
    if st == "died" and v in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
        return {"status": "violation", "kind": "process-died", "msg": f"signal {v}", "data": {}, **base}
    return {"status": "error", "msg": f"run {st}: {v}", "tb": "", **base}


def plan_rng(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


def make_plan(mod, seed, prop, i, tier):
    plan = mod.gen(plan_rng(seed, prop, i), tier, i)
    # plans must survive the replay file unchanged
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ minimiser
def shrink_lists(plan, keys):
    """Generic candidates: drop chunks of the plan's lists."""
    for key in keys:
        lst = plan.get(key) or []
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = dict(plan)
                c[key] = lst[:a] + lst[a + size :]
                if len(c[key]) < n:
                    yield c
            size //= 2


def minimise(mod, plan, result, seconds=45.0, log=lambda *_: None):
    end = _real_perf() + seconds
    kind = result["kind"]
    attempts = 0

    def attempt(cand):
        nonlocal attempts
        attempts += 1
        cand = json.loads(json.dumps(cand))
        r = run_isolated(mod, cand, timeout=120)
        if r["status"] == "violation" and r["kind"] == kind:
            return cand, r
        return None

    def accept(t):
        nonlocal plan, result
        plan, result = t

    # make the schedule explicit first
    if "sched" in plan and result.get("sched") and "switches" not in (plan["sched"] or {}):
        c = dict(plan)
        c["sched"] = result["sched"]
        t = attempt(c)
        if t:
            accept(t)
    progress = True
    while progress and _real_perf() < end:
        progress = False
        for cand in mod.shrink(plan):
            if _real_perf() > end:
                break
            t = attempt(cand)
            if t:
                accept(t)
                progress = True
                break
        else:
            sw = (plan.get("sched") or {}).get("switches")
            if sw and len(sw) > 1:
                size = max(1, len(sw) // 2)
                while size >= 1 and _real_perf() < end:
                    a = 0
                    while a < len(sw) and _real_perf() < end:
                        c = dict(plan)
                        c["sched"] = dict(plan["sched"], switches=sw[:a] + sw[a + size :])
                        t = attempt(c)
                        if t:
                            accept(t)
                            sw = plan["sched"]["switches"]
                            progress = True
                        else:
                            a += size
                    size //= 2
    return plan, result, attempts
