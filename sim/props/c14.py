"""C14: experiment data on disk is complete, aligned and never overwritten."""
import hashlib
import mmap
import os
import random
import re
import shutil
import sys
import tempfile

import cvxpy as cp
import numpy as np
import numpy.lib.npyio
import zipfile

import procsim
import core
from core import Violation
from world import rg

REPO = os.path.dirname(core.REPO_SRC)

SCRIPT = os.path.join(REPO, "scripts/experiments/generate_drip_data.py")
PROCESS = os.path.join(REPO, "scripts/experiments/process_drip_data.py")
MODULES = ["numpy.lib.npyio", "numpy.lib.format", "zipfile"]
ROLES = ("moment_d2", "moment_d3", "custom")

CONFIG = {
    "runs": {"quick": 320, "thorough": 20000},
    "rule": "A run is a history of 1-5 rounds in one directory; in each round one to three simulated processes execute the real "
    "data-generation script, interleaved at every line of it and of numpy's and zipfile's writing code by a seeded scheduler, and "
    "may be killed or interrupted at any of these lines, find the disk full or die at any byte, or meet a failing solver; between "
    "rounds and during solves the wall clock stalls or jumps. The directory is then judged with the real processing script. "
    "Non-trivial: a fault or two processes.",
    "real": ["scripts/experiments/generate_drip_data.py, process_drip_data.py", "numpy.savez, zipfile, the file system (in a scratch directory)", "in 4% of the runs also rigeo's constraints and Clarabel (in place of MOSEK)"],
    "stub": ["clocks", "in 96% of the runs the constraint sets and the solver (values unique per solve)", "process scheduler"],
    "assumptions": ["a killed process loses what it has not handed to the operating system; what it has handed over survives (no power failures)"],
}


def gen(rng, tier, i):
    real = rng.random() < 0.04
    rounds = []
    for r in range(1 if real else rng.choice([1, 2, 2, 3, 5])):
        procs = []
        long = not real and rng.random() < 0.12
        np_ = 1 if real else rng.choice([1, 1, 2, 2, 3])
        shape = rng.choice(["box", "cylinder"]) if not real else "box"
        for _ in range(np_):
            n = rng.choice([1, 2]) if real else rng.choice([12, 30, 64, 130]) if long else rng.choice([1, 1, 2, 3, 5])
            p = {"shape": shape if real or rng.random() < 0.8 else rng.choice(["box", "cylinder"]), "n": n, "solver": [], "faults": [], "limit": None}
            if rng.random() < 0.3:
                p["solver"] = [[rng.randrange(3 * n), rng.choice(["raise", "inaccurate", "infeasible", "unbounded", "user_limit", "interrupt"])]]
            q = rng.random()
            if q < 0.2:
                p["faults"] = [[rng.choice([rng.randint(1, 60 * n), rng.randint(100, 900)]), "kill"]]
            elif q < 0.4:
                k = rng.choice([1, 1, 2])
                p["faults"] = [[rng.choice([rng.randint(1, 60 * n), rng.randint(60, 900)]), rng.choice(list(procsim.EXC))] for _ in range(k)]
            elif q < 0.55:
                p["limit"] = [rng.choice([0, rng.randint(0, 300), rng.randint(0, 2200)]), rng.random() < 0.5]
            p["jumps"] = [[rng.randrange(3 * n), rng.choice([-3600.0, -1.0, -0.02, 2.0, 3600.0])] for _ in range(rng.choice([0, 0, 1, 2]))]
            procs.append(p)
        rounds.append({"procs": procs, "p": rng.choice([0.0, 0.02] if long else [0.0, 0.02, 0.3, 1.0]), "gap": rng.choice([0, 0, 0.3, 2.0]), "rewind": rng.choice([None, None, "start", "hour"])})
    return {"real": real, "rounds": rounds, "seed": rng.randrange(1 << 30), "lat": rng.choice([1e-4, 0.01, 0.4]), "tick": rng.choice([0.0, 1e-6])}


def prepare_child(plan, name, spec):
    """Runs inside the simulated process: the solver and the constraint sets become stand-ins."""

    def setup(child):
        import tqdm

        tqdm.tqdm.monitor_interval = 0
        role_of = {}  # id(constraint) -> role
        keep = []
        orig_solve = cp.Problem.solve
        state = {"k": 0}
        solver = {k: f for k, f in spec["solver"]}
        jumps = {}
        for k, d in spec["jumps"]:
            jumps[k] = jumps.get(k, 0) + d

        def tag(cls, meth):
            f = getattr(cls, meth)

            def g(self, J, *a, **k):
                role = "custom" if "custom" in meth else f"moment_d{k.get('d', a[1] if len(a) > 1 else 2)}"
                if plan["real"]:
                    cs = f(self, J, *a, **k)
                else:
                    cs = [J >> 0]
                keep.append(cs)
                for c in cs:
                    role_of[id(c)] = role
                return cs

            setattr(cls, meth, g)

        for cls in (rg.Box, rg.Cylinder):
            for meth in ("moment_sdp_constraints", "moment_custom_vertex_constraints"):
                tag(cls, meth)

        def solve(self, *args, **kwargs):
            k = state["k"]
            state["k"] += 1
            roles = {role_of[id(c)] for c in self.constraints if id(c) in role_of}
            role = roles.pop() if len(roles) == 1 else None
            D = b"".join(np.asarray(q.value, dtype=float).tobytes() for q in sorted(self.parameters(), key=lambda q: q.size))
            h = random.Random(f"{plan['seed']}:{name}:{k}")
            m0 = child.clock.get()[0]
            child.point()
            lat = plan["lat"] * (0.5 + h.random())
            child.clock.advance(lat)
            if k in jumps:
                child.clock.jump(jumps[k])
                child.send(("event", "clock-jump"))
            fault = solver.get(k)
            if fault is not None:
                child.send(("event", "solver:" + fault))
            if fault == "raise":
                raise cp.error.SolverError("injected")
            if fault == "interrupt":
                raise KeyboardInterrupt("injected")
            if plan["real"]:
                orig_solve(self, solver=cp.CLARABEL)
                value = None if self.value is None else float(self.value)
                if self.status != "optimal":
                    fault = "real-status"
                    child.send(("event", "solver:" + fault))
            else:
                value = 1.0 + h.random() + {"moment_d2": 0.02, "moment_d3": 0.01}.get(role, 0)
                self._value = value
                self._status = "optimal"
            if fault in ("inaccurate", "infeasible", "unbounded", "user_limit"):
                self._status = {"inaccurate": "optimal_inaccurate"}.get(fault, fault)
                value = {"infeasible": -np.inf, "unbounded": np.inf, "user_limit": None}.get(fault, value)
                self._value = value
            child.send(("solve", {"role": role, "D": D, "value": value, "lat": lat, "ok": fault is None, "m0": m0, "m1": child.clock.get()[0]}))
            return value

        cp.Problem.solve = solve

    return setup


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def process(d, f, clock):
    """The real processing script on a file: (accepted, output)."""
    p = procsim.Proc("process", PROCESS, [f], d, clock, [], None, lambda child: None)
    p.go()
    while not p.done:
        p.go()
    return p.end[0] == "exit" and p.end[1] == 0, p


NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)(?![\w)])")


def run(plan, ctx):
    d = tempfile.mkdtemp(prefix="rigeo-c14-")
    try:
        simulate(plan, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def simulate(plan, ctx, d):
    shm = mmap.mmap(-1, 64)
    clock = procsim.Clock(shm, plan["tick"])
    clock.put(0.0, 1.7e9)
    sched = random.Random(plan["seed"])
    complete = {}  # file -> bytes
    judged = {}  # content -> verdict
    for ri, rnd in enumerate(plan["rounds"]):
        start = clock.get()
        procs = []
        for pi, spec in enumerate(rnd["procs"]):
            name = f"{ri}.{pi}"
            P = procsim.Proc(name, SCRIPT, [spec["shape"], "-n", str(spec["n"])], d, clock, MODULES, spec["limit"], prepare_child(plan, name, spec))
            P.spec, P.log, P.faulty = spec, [], False
            P.faults = sorted((int(a), b) for a, b in spec["faults"])
            procs.append(P)
        live = list(procs)
        cur = live[0]
        try:
            while live:
                if len(live) > 1 and sched.random() < rnd["p"]:
                    nxt = sched.choice(live)
                    if nxt is not cur:
                        ctx.fault("process-switch")
                    cur = nxt
                ans = b"g"
                if cur.faults and cur.points >= cur.faults[0][0]:
                    kind = cur.faults.pop(0)[1]
                    ans = {"kill": b"k", "KeyboardInterrupt": b"i", "MemoryError": b"m", "OSError": b"e"}[kind]
                    ctx.fault("process:" + kind)
                    cur.faulty = True
                for m in cur.go(ans):
                    if m[0] == "solve":
                        cur.log.append(m[1])
                    else:
                        ctx.fault(m[1])
                        cur.faulty = cur.faulty or m[1].startswith("solver")
                ctx.steps += 1
                if cur.points > 100000:
                    raise Violation("stuck", f"the script is still running after {cur.points} lines")
                if cur.done:
                    live.remove(cur)
                    if live:
                        cur = sched.choice(live)
        finally:
            for P in live:
                if not P.done:
                    P.go(b"k")
        for P in procs:
            ctx.log(P.name, P.end[:2] if P.end[0] != "killed" else P.end[0], P.points, len(P.log))
            if P.spec["limit"]:
                if P.end[0] == "killed" and P.status == -25:
                    ctx.fault("process:died-at-byte")
                    P.faulty = True
                elif P.end[0] == "raised" and "File too large" in P.end[2]:
                    ctx.fault("disk-full")
                    P.faulty = True
        judge(plan, ctx, d, clock, procs, complete)
        if ri + 1 < len(plan["rounds"]):
            m, o = clock.get()
            if rnd["rewind"] == "start":
                clock.put(m, o - (m + o - sum(start)))
                ctx.fault("clock-rewound")
            elif rnd["rewind"] == "hour":
                clock.jump(-3600)
                ctx.fault("clock-jump")
            clock.advance(rnd["gap"])
    ctx.probe("sim_seconds", 1 + int(clock.get()[0]))
    ctx.evals += 1


def judge(plan, ctx, d, clock, procs, complete):
    now = snapshot(d)
    for f, b in complete.items():
        if f not in now:
            raise Violation("lost", "a complete data file of an earlier run is gone")
        if now[f] != b:
            raise Violation("overwritten", "a complete data file of an earlier run was overwritten")
    fresh = {}
    for f in sorted(now):
        if f in complete:
            continue
        ok, p = process(d, f, clock)
        ctx.evals += 1
        if snapshot(d) != now:
            raise Violation("processing-writes", "the processing script changed the data directory")
        if not ok:
            ctx.probe("rejected-file")
            continue
        ctx.probe("accepted-file")
        P = examine(plan, d, f, procs, p.out)
        if P.name in fresh:
            raise Violation("two-files", f"run {P.name} left more than one file accepted as data")
        fresh[P.name] = f
        complete[f] = now[f]
    for P in procs:
        what = f"run {P.name} ({P.spec['shape']}, n={P.spec['n']})"
        if P.end[0] == "exit" and P.end[1] == 0:
            if P.name not in fresh:
                raise Violation("no-data", f"{what} ended normally but left no data file")
            if os.path.basename(fresh[P.name]) not in P.out:
                raise Violation("wrong-name", f"{what} did not report the file it wrote")
        elif not P.faulty:
            raise Violation("failed", f"{what} failed without cause: {P.end}")


def examine(plan, d, f, procs, out):
    """The content of an accepted file: one run's trials, complete and aligned."""
    data = dict(np.load(os.path.join(d, f)))
    for r in ROLES:
        for s in ("_values", "_times"):
            if r + s not in data:
                raise Violation("incomplete", f"accepted file has no {r + s}")
    vals = {r: np.asarray(data[r + "_values"], dtype=float).ravel() for r in ROLES}
    times = {r: np.asarray(data[r + "_times"], dtype=float).ravel() for r in ROLES}
    solves = {}
    for P in procs:
        for k, s in enumerate(P.log):
            if s["value"] is not None:
                solves.setdefault(s["value"], []).append((P, k, s))
    owners = [q for q in procs if any(abs(vals["custom"][0] - s["value"]) == 0 for s in q.log if s["value"] is not None)] if len(vals["custom"]) else []
    if not owners:
        raise Violation("foreign", "accepted file holds values that no solve of this round returned")
    err = None
    for P in owners:
        err = aligned(P, vals, times)
        if err is None:
            break
    if err is not None:
        raise Violation(*err)
    exp = []
    for a, b in (("moment_d3", "custom"), ("moment_d2", "custom")):
        exp += [np.max(vals[a] - vals[b]), np.min(vals[a] - vals[b])]
    # the smallest d3 - custom difference is printed, the smallest d2 one is not
    exp.pop()
    exp += [1000 * np.mean(times[r]) for r in ROLES]
    got = [float(x) for x in NUM.findall(re.sub(r"\(.*?\)|d=\d", "", out))]
    for e in exp:
        if not any(abs(e - x) <= 1e-9 * max(1.0, abs(e)) for x in got):
            raise Violation("summary", f"the processing script does not report {e:.9g}: {got}")
    if plan["real"]:
        for a, b in (("moment_d2", "moment_d3"), ("moment_d3", "custom")):
            if (vals[b] > vals[a] + 1e-4).any():
                raise Violation("tightness", f"{b} is looser than {a}")
    return P


def aligned(P, vals, times):
    n = P.spec["n"]
    for r in ROLES:
        if len(vals[r]) != n or len(times[r]) != n:
            return "incomplete", f"accepted file of a run with n={n} has {len(vals[r])} {r} values and {len(times[r])} times"
        if not np.isfinite(vals[r]).all() or not np.isfinite(times[r]).all():
            return "incomplete", f"accepted file has non-finite {r} entries"
        if (times[r] < 0).any():
            return "negative-time", f"recorded time {times[r].min():.6g}"
    used = set()
    prev = {r: -1 for r in ROLES}
    for i in range(n):
        Ds = []
        for r in ROLES:
            c = [k for k, s in enumerate(P.log) if s["value"] is not None and s["value"] == vals[r][i] and s["role"] in (r, None) and k not in used]
            if not c:
                return "misaligned", f"{r} value {i} was not returned by any such solve of the run"
            c = [k for k in c if P.log[k]["ok"]]
            if not c:
                return "failed-solve", f"{r} value {i} is from a solve that failed"
            c = [k for k in c if k > prev[r]]
            if not c:
                return "misaligned", f"{r} value {i} is out of sequence"
            k = c[0]
            used.add(k)
            prev[r] = k
            s = P.log[k]
            # between the ends of the solve before and the start of the one after
            lo = s["m1"] - s["m0"]
            hi = (P.log[k + 1]["m0"] if k + 1 < len(P.log) else s["m1"] + 60) - (P.log[k - 1]["m1"] if k else 0.0)
            if not lo - 1e-6 <= times[r][i] <= hi + 1e-6:
                return "wrong-time", f"{r} time {i} is {times[r][i]:.6g}, the solve took {lo:.6g}"
            Ds.append(s["D"])
        if len(set(Ds)) != 1:
            return "misaligned", f"entries {i} belong to different problems"
    return None


def nontrivial(plan, res):
    return bool(res["faults"])


def shrink(plan):
    R = plan["rounds"]
    for k in range(len(R)):
        if len(R) > 1:
            yield dict(plan, rounds=R[:k] + R[k + 1 :])
    for k, r in enumerate(R):
        if len(r["procs"]) > 1:
            for j in range(len(r["procs"])):
                yield dict(plan, rounds=R[:k] + [dict(r, procs=r["procs"][:j] + r["procs"][j + 1 :])] + R[k + 1 :])
        if r["rewind"]:
            yield dict(plan, rounds=R[:k] + [dict(r, rewind=None)] + R[k + 1 :])
        for j, p in enumerate(r["procs"]):
            for c in ({"solver": []}, {"faults": []}, {"limit": None}, {"jumps": []}, {"jumps": p["jumps"][1:]}, {"n": 1}, {"n": p["n"] - 1}):
                q = dict(p, **c)
                if q != p and q["n"] >= 1:
                    yield dict(plan, rounds=R[:k] + [dict(r, procs=r["procs"][:j] + [q] + r["procs"][j + 1 :])] + R[k + 1 :])
