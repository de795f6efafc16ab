"""C01: samplers only return points of the region they were asked to sample."""
import numpy as np

import core
import entropy
import geom
from core import Violation, is_simulated
from simlib import shape_arg, expect_arrangement, gen_shape_arg, run_tasks
from world import rg

CONFIG = {
    "runs": {"quick": 2400, "thorough": 40000},
    "rule": "A run is 1-3 shapes, 1-3 caller threads issuing sampling calls against private or shared random sources, a "
    "schedule, entropy-device bursts and interrupts. Non-trivial: at least one thread switch inside a call, entropy burst "
    "consumed, or interrupt fired.",
    "real": ["rigeo samplers (shape/*.py, random.py)", "numpy distributions"],
    "stub": ["raw bits of the random source (simulated entropy device)", "thread scheduler"],
    "assumptions": [
        "bursts of extreme raw values are short and isolated, as any adversarial but non-degenerate stream; streams in which a "
        "whole vector of draws is exactly zero (probability below 2^-100) are not generated",
        "polyhedra have vertices in general convex position; extents between 0.005 and 2",
    ],
}


def gen(rng, tier, i):
    shapes = [
        geom.add_via(rng, some_shape(rng))
        for _ in range(rng.randint(1, 3))
    ]
    if rng.random() < 0.35:
        shapes.append(geom.add_via(rng, geom.gen_ell(rng, dims=(1, 2, 4, 5))))
    if rng.random() < 0.15:
        shapes.append(geom.add_via(rng, geom.gen_poly(rng, dim=2)))
    nth = rng.choice([1, 1, 2, 3])
    tasks = []
    for t in range(nth):
        calls = []
        for _ in range(rng.randint(1, 4)):
            calls.append(gen_call(rng, shapes))
        tasks.append(calls)
    one_d = any(s["k"] == "ell" and len(s["he"]) == 1 for s in shapes) or any(c.get("dim") == 1 for t in tasks for c in t)
    sched = core.gen_sched(rng, nth)
    faults = []
    if rng.random() < 0.3:
        faults.append([rng.randrange(nth), rng.randint(1, 60), rng.choice(["KeyboardInterrupt", "MemoryError"])])
    sched["faults"] = faults
    bursts = entropy.gen_bursts(rng, single_zero=not one_d) if rng.random() < 0.75 else []
    rejects = any(c["op"] == "rejection" or ("s" in c and shapes[c["s"]]["k"] == "cap") for t in tasks for c in t)
    if rng.random() < 0.5 and any(np.prod(c["n"]) > 400 for t in tasks for c in t) and not rejects:
        # a long stretch of extreme values somewhere in a large batch
        bursts.append([rng.randrange(20000), rng.choice([100, 1000]), "high"])
    return {
        "shapes": shapes,
        "tasks": tasks,
        "source": rng.choice(["shared", "private"]),
        "device": {"seed": rng.randrange(1 << 30), "bursts": bursts},
        "sched": sched,
    }


def some_shape(rng):
    s = geom.gen_shape(rng, ("box", "box", "ell", "ell", "cyl", "cap", "poly", "simplex"), degenerate=0.15)
    if rng.random() < 0.15 and s["k"] != "cap":
        geom.stretch(rng, s)
    elif s["k"] == "cap" and rng.random() < 0.25:
        s["l"] *= 10 ** rng.uniform(0, 2)
    if rng.random() < 0.06 and s["k"] in ("box", "cyl", "cap"):
        s["R"] = geom.small_rot(rng, lo=-4.5).tolist()
    return s


def gen_call(rng, shapes):
    c = gen_small_call(rng, shapes)
    R = shapes[c["s"]].get("R") if "s" in c else None
    tilted = R is not None and len(R) == 3 and 0 < np.abs(np.array(R) - np.eye(3)).max() < 0.03
    if rng.random() < (0.3 if tilted else 0.05) and c["op"] != "rejection":
        # a large batch
        c["n"] = rng.choice([500, 1025, [1500], [40, 50], 3000, rng.randint(60, 6000), 5000])
    return c


def gen_small_call(rng, shapes):
    r = rng.random()
    if r < 0.12:
        op = rng.choice(["ball", "sphere", "weights"])
        return {"op": op, "dim": rng.choice([1, 2, 3, 3, 4, 6]) if op == "ball" else rng.choice([1, 2, 2, 3, 5]), "n": gen_shape_arg(rng)}
    i = rng.randrange(len(shapes))
    k = shapes[i]["k"]
    ops = ["points"]
    if k == "box":
        ops += ["surface", "surface", "edges"]
    if k == "ell" and len(shapes[i]["he"]) >= 2 and min(shapes[i]["he"]) > 1e-8:
        ops += ["surface"]
    op = rng.choice(ops)
    # rejection sampling over a union of 3-D full-dimensional shapes
    three = [j for j, s in enumerate(shapes) if geom.M(s).dim == 3 and not (s["k"] == "ell" and min(s["he"]) == 0)]
    if len(three) >= 1 and rng.random() < 0.25:
        t = sorted(rng.sample(three, rng.randint(1, len(three))))
        ms = [geom.M(shapes[j]) for j in t]
        lo, hi = bounding_box(ms)
        if max(m.volume() for m in ms) > 0.02 * np.prod(hi - lo + 0.02):
            return {"op": "rejection", "targets": t, "n": gen_shape_arg(rng, 30)}
    return {"op": op, "s": i, "n": gen_shape_arg(rng)}


def bounding_box(models):
    lo = np.min([[-m.support(-e) for e in np.eye(3)] for m in models], axis=0)
    hi = np.max([[m.support(e) for e in np.eye(3)] for m in models], axis=0)
    return lo, hi


def do_call(call, objs, models, src):
    n = shape_arg(call["n"])
    op = call["op"]
    if op == "ball":
        return rg.random_points_in_ball(shape=n, dim=call["dim"], rng=src)
    if op == "sphere":
        return rg.random_points_on_hypersphere(shape=n, dim=call["dim"], rng=src)
    if op == "weights":
        shp = (n if isinstance(n, tuple) else (n,)) + (call["dim"] + 1,)
        return rg.random_weight_vectors(shp, rng=src)
    if op == "rejection":
        ms = [models[j] for j in call["targets"]]
        lo, hi = bounding_box(ms)
        box = rg.Box.from_two_vertices(lo - 0.01, hi + 0.01)
        return rg.rejection_sample([objs[j] for j in call["targets"]], box, n, rng=src)
    o = objs[call["s"]]
    f = {"points": "random_points", "surface": "random_points_on_surface", "edges": "random_points_on_edges"}[op]
    return getattr(o, f)(shape=n, rng=src)


def verify(call, res, models):
    op = call["op"]
    if op == "weights":
        n = call["n"]
        want = [tuple(n if isinstance(n, list) else [n]) + (call["dim"] + 1,)]
        dim = call["dim"] + 1
    else:
        dim = {"ball": call.get("dim"), "sphere": (call.get("dim") or 0) + 1, "rejection": 3}.get(op)
        if dim is None:
            dim = models[call["s"]].dim
        want = expect_arrangement(call["n"], dim)
    res = np.asarray(res)
    if res.shape not in want:
        raise Violation("arrangement", f"{op} n={call['n']}: got shape {res.shape}, expected {want[0]}", call=call)
    P = res.reshape(-1, dim).astype(float)
    if not np.isfinite(P).all():
        raise Violation("non-finite", f"{op} returned non-finite points", call=call)
    if len(P) == 0:
        return
    if op == "ball":
        v = np.linalg.norm(P, axis=1) - 1
        tol = 1e-9
    elif op == "sphere":
        v = np.abs(np.linalg.norm(P, axis=1) - 1)
        tol = 1e-9
    elif op == "weights":
        v = np.maximum(-P.min(axis=1), np.abs(P.sum(axis=1) - 1))
        tol = 1e-9
    elif op == "rejection":
        v = np.min([models[j].viol(P) for j in call["targets"]], axis=0)
        tol = 1e-7 * max(models[j].scale for j in call["targets"])
    else:
        m = models[call["s"]]
        tol = 1e-9 * m.scale
        v = {"points": m.viol, "surface": m.surf, "edges": m.edge}[op](P)
        if m.k == "cap":
            tol = 1e-7 * m.scale
    if v.max() > tol:
        k = "-" if "s" not in call else models[call["s"]].k
        j = int(v.argmax())
        raise Violation("outside", f"{op} on {k}: point {P[j].tolist()} is {v.max():.3g} off", call=call)


def run(plan, ctx):
    models = [geom.M(s) for s in plan["shapes"]]
    objs = [geom.build(s) for s in plan["shapes"]]
    d = plan["device"]
    devs = []

    def source(t):
        dev = entropy.EntropyDevice(d["seed"] + 1000 * t, d["bursts"])
        devs.append(dev)
        return dev.generator()

    shared = source(0)
    results = [[] for _ in plan["tasks"]]

    def task(t, calls):
        src = shared if plan["source"] == "shared" else source(t + 1)

        def body():
            import sys

            for call in calls:
                for attempt in range(2):
                    try:
                        results[t].append((call, do_call(call, objs, models, src)))
                        break
                    except BaseException as e:
                        if not is_simulated(e) or attempt:
                            raise
                        core.retrace()
                        ctx.probe("retried-after-interrupt")

        return body

    tasks = [task(t, c) for t, c in enumerate(plan["tasks"])]
    run_tasks(tasks, plan["sched"], ctx)
    for dev in devs:
        for m, n in dev.hits.items():
            ctx.fault(f"entropy:{m}", n)
    for t, rs in enumerate(results):
        for call, res in rs:
            ctx.evals += 1
            ctx.log(t, call["op"], call.get("s"), call["n"], np.shape(res), float(np.sum(res)))
            verify(call, res, models)


def shrink(plan):
    T = plan["tasks"]
    if len(T) > 1:
        for t in range(len(T)):
            yield dict(plan, tasks=T[:t] + T[t + 1 :], sched=dict(plan["sched"], faults=[]))
    for t in range(len(T)):
        for j in range(len(T[t])):
            if len(T[t]) > 1:
                yield dict(plan, tasks=T[:t] + [T[t][:j] + T[t][j + 1 :]] + T[t + 1 :])
    if plan["device"]["bursts"]:
        for c in core.shrink_lists(plan["device"], ["bursts"]):
            yield dict(plan, device=c)
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    for t in range(len(T)):
        for j, c in enumerate(T[t]):
            if c["n"] not in (1, 2):
                for n in (1, 2):
                    yield dict(plan, tasks=T[:t] + [T[t][:j] + [dict(c, n=n)] + T[t][j + 1 :]] + T[t + 1 :])
    for i, s in enumerate(plan["shapes"]):
        for key in ("via", "c", "R"):
            if s.get(key):
                s2 = {k: v for k, v in s.items() if k != key}
                yield dict(plan, shapes=plan["shapes"][:i] + [s2] + plan["shapes"][i + 1 :])
