"""C06: an interrupted operation leaves no trace and can simply be retried."""
import gc
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import cvxpy as cp

import core
import entropy
import isolated
import ops
import solver as simsolver
from core import Violation, Pristine, Tracer, is_simulated, make_exc

CONFIG = {
    "runs": {"quick": 1500, "thorough": 40000},
    "rule": "A run is a sequence of operations (queries, constructions, sampling, solver-backed computations) on a pool of "
    "objects, each cut short one or more times at a generated line, draw or solver call, then checked and repeated; the "
    "reference runs alone in a pristine fork. Non-trivial: at least one injected exception fired.",
    "real": ["all rigeo object code", "numpy, scipy, cdd, cvxpy, Clarabel"],
    "stub": ["solver failures (real Clarabel otherwise)", "random source failures"],
    "assumptions": ["interrupts are delivered between lines of rigeo code, inside draws and inside solver calls"],
}

SOLVERS = [n for n, d in ops.OPS.items() if d["solver"]]
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedError", "KeyboardInterrupt"]


def gen(rng, tier, i):
    # two of three runs concentrate on one operation, in turn
    first = None
    if i % 3:
        pool, first = ops.gen_target(rng, i - i // 3)
    else:
        pool = ops.gen_pool(rng, rng.choice([1, 2, 3]))
    steps = []
    for k in range(rng.choice([1, 2]) if first else rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if first and k == 0:
            st = {"op": first, "deep": ops.OPS[first["op"]]["new"] and rng.random() < 0.5}
        elif r < 0.2:
            st = {"build": rng.randrange(len(pool))}
        else:
            o = None
            if rng.random() < 0.15:
                o = ops.gen_op(rng, pool, solver=1, only=SOLVERS)
            o = o or ops.gen_op(rng, pool, rand=rng.random() < 0.25, solver=0.2, heavy=0.15) or ops.gen_op(rng, pool, solver=0, heavy=0)
            if o is None:
                continue
            st = {"op": o, "deep": ops.OPS[o["op"]]["new"] and rng.random() < 0.5}
        st["cuts"] = []
        # the operation a run concentrates on is cut all over its code
        ncuts = rng.choice([6, 12]) if first and k == 0 else rng.choice([1, 1, 2, 3])
        for j in range(ncuts):
            # "site" gives every line of code the same chance, however often it runs,
            # "func" every function, however long it is
            kind = rng.choice(["line", "site", "site", "func", "func"])
            d = ops.OPS[st["op"]["op"]] if "op" in st else {"rand": False, "solver": False}
            if d["rand"] and rng.random() < 0.4:
                kind = "draw"
            if d["solver"] and rng.random() < (0.25 if ncuts > 3 else 0.5):
                kind = "solver"
            exc = rng.choice(EXC + ["SolverError"] * 2) if kind == "solver" else rng.choice(EXC)
            st["cuts"].append([kind, (j + rng.random()) / ncuts if ncuts > 3 else rng.choice([rng.random(), rng.random(), 1 - rng.random() ** 2 * 0.3]), exc])
        st["warm"] = rng.random() < (0.15 if first and k == 0 else 0.3)
        # begin every cut with objects nothing happened to yet
        st["fresh"] = bool(first) and k == 0 and rng.random() < 0.8
        steps.append(st)
    return {"pool": pool, "steps": steps, "probe_each": rng.random() < 0.5, "env": rng.randrange(1 << 20)}


def settings():
    ns = np.random.get_state(legacy=False)
    return {
        "errstate": str(np.geterr()),
        "errcall": str(np.geterrcall()),
        "printoptions": str(np.get_printoptions()),
        "np.random": hash((ns["state"]["key"].tobytes(), ns["state"]["pos"], ns["has_gauss"], ns["gauss"])),
        "random": hash(random.getstate()),
        "warnings": str(warnings.filters),
        "showwarning": repr(warnings.showwarning.__qualname__),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "recursion": sys.getrecursionlimit(),
        "environ": hash(tuple(sorted(os.environ.items()))),
        "cwd": os.getcwd(),
        "threads": threading.active_count(),
        "sigint": str(signal.getsignal(signal.SIGINT)),
        "fds": len(os.listdir("/proc/self/fd")),
        "stdout": sys.stdout is sys.__stdout__ and sys.stderr is sys.__stderr__,
    }


def set_environment(seed):
    r = random.Random(seed)
    np.seterr(over=r.choice(["warn", "ignore"]), under=r.choice(["warn", "ignore"]), invalid=r.choice(["warn", "ignore"]), divide=r.choice(["warn", "ignore"]))
    np.set_printoptions(precision=r.choice([3, 8]), suppress=r.random() < 0.5)
    np.random.seed(r.randrange(1000))
    random.seed(r.randrange(1000))
    # a caller's own filter in front of all others
    warnings.filterwarnings(r.choice(["default", "ignore"]), message=f"caller {r.randrange(1000)}")


def flip_environment():
    """The caller has other preferences by now, all of them the opposite of before."""
    np.seterr(**{k: "warn" if v == "ignore" else "ignore" for k, v in np.geterr().items()})
    p = np.get_printoptions()
    np.set_printoptions(precision=11 - p["precision"], suppress=not p["suppress"])


def perform(st, pool, objs, solver=None, rng=None):
    if "build" in st:
        return isolated.safe_probe_build(pool, objs, st["build"])
    return isolated.outcome(st["op"], objs, deep=st["deep"], solver=solver, rng=rng)


def source(st, cb=None):
    if "op" in st and ops.OPS[st["op"]["op"]]["rand"]:
        g = entropy.TracedGenerator(np.random.PCG64(st["op"]["x"]["seed"]))
        g._on_draw = cb
        return g
    return None


def alone(pool):
    h = isolated.handler(pool)

    def handler(req):
        if req[0] != "step":
            return h(req)
        st = req[1]
        objs = ops.build_pool(pool)
        sv = simsolver.SimSolver()
        g = source(st)
        visits = {}
        order = []
        funcs = {}

        def hook(frame):
            k = (frame.f_code.co_filename, frame.f_lineno)
            v = visits.get(k)
            if v is None:
                visits[k] = v = []
                funcs.setdefault((frame.f_code.co_filename, frame.f_code.co_firstlineno), []).append(len(order))
                order.append(v)
            v.append(tr.steps)

        with Tracer() as tr:
            tr.hook = hook
            v = perform(st, pool, objs, sv, g)
        # the steps at which each line was reached: the first, second, middle and last
        sites = [[v[0], v[min(1, len(v) - 1)], v[len(v) // 2], v[-1]] for v in order]
        return v, tr.steps, sites, list(funcs.values()), (g.__dict__.get("_draws", 0) if g is not None else 0), sv.calls

    return handler


def run(plan, ctx):
    pool = plan["pool"]
    set_environment(plan["env"])
    pris = Pristine(alone(pool))
    objs = ops.build_pool(pool)
    probes = None
    np.random.seed(plan["env"] % 1000)

    def check_objects(when):
        nonlocal probes
        if probes is None:
            probes = pris(("probes",))
        for i, (o, ref) in enumerate(zip(objs, probes)):
            ctx.evals += 1
            d = ops.same(ref, isolated.safe_probe(o))
            if d:
                raise Violation("object-changed", f"{when}: {pool[i]['k']} {str(pool[i])[:200]}: {d}")

    for st in plan["steps"]:
        what = isolated.describe(st["op"], pool) if "op" in st else f"building {str(pool[st['build']])[:200]}"
        tol = ops.tol_of(st["op"]) if "op" in st else 1e-9
        ref, nsteps, sites, funcs, ndraws, nsolves = pris(("step", st))
        if st["warm"]:
            perform(st, pool, objs)
        for kind, frac, exc in st["cuts"]:
            if st["fresh"]:
                objs = ops.build_pool(pool)
                if st["warm"]:
                    perform(st, pool, objs)
            flip_environment()
            before = settings()
            sv = None
            cb = None
            tr = Tracer()
            if kind == "solver" and nsolves:
                sv = simsolver.SimSolver([["raise", exc]] if nsolves == 1 else ["ok"] * int(frac * nsolves) + [["raise", exc]])
            elif kind == "draw" and ndraws:
                at = 1 + int(frac * ndraws)

                def cb(name, k, at=at, exc=exc):
                    if k == at:
                        raise make_exc(exc)

            elif nsteps:
                if kind == "func":
                    lines = funcs[int(frac * len(funcs)) % len(funcs)]
                    v = sites[lines[int(frac * 1e7) % len(lines)]]
                    tr.fault_at = v[int(frac * 1e6) % 4]
                elif kind == "site":
                    v = sites[int(frac * len(sites)) % len(sites)]
                    tr.fault_at = v[int(frac * 1e6) % 4]
                else:
                    tr.fault_at = 1 + int(frac * nsteps)
                kind = "line"
                tr.fault_exc = exc
            else:
                continue
            g = source(st, cb)
            if sv is None:
                sv = simsolver.SimSolver()
            res = None
            caught = None
            try:
                with tr:
                    res = perform(st, pool, objs, sv, g)
            except BaseException as e:
                if not is_simulated(e):
                    raise
                caught = type(e).__name__
                del e
            fired = tr.fired or (kind == "draw") or (kind == "solver" and any(a != "ok" for a, _ in sv.done))
            ctx.log(what[:60], kind, exc, tr.fired_where or "", caught)
            ctx.steps += tr.steps
            if tr.fired_where:
                ctx.sites.add(tr.fired_where)
            if fired:
                ctx.fault(f"{kind}:{exc}")
                if caught is None:
                    raise Violation("swallowed", f"{what}: {exc} at {tr.fired_where or kind} did not reach the caller")
                if caught != exc:
                    raise Violation("swallowed", f"{what}: {exc} at {tr.fired_where or kind} arrived as {caught}")
            elif res is not None:
                d = ops.same(ref, res, tol)
                if d:
                    raise Violation("retry-differs", f"{what}: {d}")
            after = settings()
            for k in before:
                if before[k] != after[k]:
                    raise Violation("settings-changed", f"{what}: {k} {'after ' + exc if fired else ''}: {before[k]} -> {after[k]}")
            if st["fresh"]:
                ctx.evals += 1
                d = ops.same(ref, perform(st, pool, objs, simsolver.SimSolver(), source(st)), tol)
                if d:
                    raise Violation("retry-differs", f"{what}: alone vs after an interruption at {tr.fired_where}: {d}")
                if fired:
                    check_objects(f"after {what} was interrupted at {tr.fired_where}")
        if plan["probe_each"]:
            check_objects(f"after {what} was cut short")
        before = settings()
        res = perform(st, pool, objs, simsolver.SimSolver(), source(st))
        after = settings()
        for k in before:
            if before[k] != after[k]:
                raise Violation("settings-changed", f"{what}: {k}: {before[k]} -> {after[k]}")
        ctx.evals += 1
        d = ops.same(ref, res, tol)
        if d:
            raise Violation("retry-differs", f"{what}: alone vs after an interruption: {d}")
    check_objects("at the end")
    pris.close()


def nontrivial(plan, res):
    return bool(res["faults"])


def shrink(plan):
    yield from core.shrink_lists(plan, ["steps"])
    for k, st in enumerate(plan["steps"]):
        for j in range(len(st["cuts"])):
            if len(st["cuts"]) > 1:
                s = [dict(x) for x in plan["steps"]]
                s[k]["cuts"] = st["cuts"][:j] + st["cuts"][j + 1 :]
                yield dict(plan, steps=s)
        if st["warm"] and not st["fresh"]:
            s = [dict(x) for x in plan["steps"]]
            s[k]["warm"] = False
            yield dict(plan, steps=s)
