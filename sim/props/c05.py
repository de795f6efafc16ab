"""C05: concurrent use of shared objects gives the answers of isolated use."""
import core
import geom
import isolated
import ops
from core import Violation, Pristine, is_simulated
from simlib import run_tasks

CONFIG = {
    "runs": {"quick": 500, "thorough": 30000},
    "rule": "A run is 2-4 threads querying 1-4 shared objects (a few operations repeated with different arguments) under a "
    "seeded schedule that may switch at every line or bytecode of rigeo, sometimes with an interrupted and repeated query; "
    "each query's twin runs alone on private copies in a pristine fork. Non-trivial: at least one thread switch.",
    "real": ["all rigeo object code", "numpy, scipy, cdd, cvxpy, Clarabel"],
    "stub": ["thread scheduler"],
    "assumptions": ["threads are switched inside rigeo code only; dependencies run atomically"],
}


def gen(rng, tier, i):
    # two of three runs concentrate on one operation, in turn
    first = None
    if i % 3:
        pool, first = ops.gen_target(rng, i - i // 3)
    else:
        pool = ops.gen_pool(rng, rng.choice([1, 2, 3, 4]))
    nth = rng.choice([2, 2, 3, 4])
    # a few operations, used by everybody
    menu = [first] if first else []
    for _ in range(rng.choice([0, 0, 1, 2]) if first else rng.choice([1, 2, 3, 5])):
        o = ops.gen_op(rng, pool, rand=rng.random() < 0.15, solver=0.12, heavy=0.15) or ops.gen_op(rng, pool, solver=0, heavy=0)
        if o:
            menu.append(o)
    tasks = []
    for t in range(nth):
        its = []
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(menu) if menu else None
            if o is None:
                continue
            if rng.random() < 0.7:
                # same operation, fresh arguments
                d = ops.OPS[o["op"]]
                x = d["gen"](rng, pool, o["i"])
                if x is not None:
                    o = {"op": o["op"], "i": o["i"], "x": x}
            its.append({"op": o, "deep": ops.OPS[o["op"]]["new"] and rng.random() < 0.5})
        tasks.append(its)
    s = core.gen_sched(rng, nth)
    if rng.random() < 0.2:
        s["faults"] = [[rng.randrange(nth), rng.randint(1, 150), "KeyboardInterrupt"]]
    return {"pool": pool, "tasks": tasks, "sched": s}


def run(plan, ctx):
    pool, tasks = plan["pool"], plan["tasks"]
    pris = Pristine(isolated.handler(pool))
    objs = ops.build_pool(pool)
    out = {}

    def task(t):
        def body():
            for k, it in enumerate(tasks[t]):
                for attempt in range(4):
                    try:
                        out[t, k] = isolated.outcome(it["op"], objs, deep=it["deep"])
                        break
                    except BaseException as e:
                        if not is_simulated(e):
                            raise
                        core.retrace()
                        ctx.probe("repeated-query")

        return body

    run_tasks([task(t) for t in range(len(tasks))], plan["sched"], ctx)
    cache = {}
    for (t, k), v in sorted(out.items()):
        it = tasks[t][k]
        key = repr(it)
        if key not in cache:
            cache[key] = pris(("op", it["op"], it["deep"]))
        ctx.evals += 1
        ctx.log(t, k, it["op"]["op"], v[0] if isinstance(v, (tuple, list)) and v and isinstance(v[0], str) else v)
        d = ops.same(cache[key], v, ops.tol_of(it["op"]))
        if d:
            raise Violation("not-isolated", f"thread {t}: {isolated.describe(it['op'], pool)}: alone vs shared: {d}", op=it["op"]["op"])
    for i, (o, ref) in enumerate(zip(objs, pris(("probes",)))):
        d = ops.same(ref, isolated.safe_probe(o), 1e-9)
        ctx.evals += 1
        if d:
            raise Violation("object-changed", f"{pool[i]['k']} {str(pool[i])[:200]}: {d}")
    pris.close()


def nontrivial(plan, res):
    return res["faults"].get("thread-switch", 0) > 0


def shrink(plan):
    ts = plan["tasks"]
    if len(ts) > 2:
        for t in range(len(ts)):
            yield dict(plan, tasks=ts[:t] + ts[t + 1 :], sched=dict({k: v for k, v in plan["sched"].items() if k != "switches"}, faults=[]))
    for t, its in enumerate(ts):
        for k in range(len(its)):
            if len(its) > 1:
                c = [list(x) for x in ts]
                del c[t][k]
                yield dict(plan, tasks=c)
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
