"""C10: merging bodies is independent of order and grouping and loses nothing."""
import numpy as np

import core
import geom
import ops
from core import Violation, is_simulated
from material import Material
from simlib import run_tasks
from world import rg

CONFIG = {
    "runs": {"quick": 1300, "thorough": 60000},
    "rule": "A run merges 2-40 parts (inertial parameters or bodies, some massless, some shared between threads) on 1-3 "
    "threads by generated pairwise additions, sums, transforms and representation changes, under a seeded schedule with "
    "interrupted and repeated steps; every operand, intermediate and total is compared with the point-mass model. "
    "Non-trivial: at least two merges.",
    "real": ["rigeo.InertialParameters", "rigeo.RigidBody", "shapes"],
    "stub": ["thread scheduler"],
    "assumptions": ["C10 totals are compared to 1e-8 of the largest moment seen in the run"],
}


def gen(rng, tier, i):
    mode = rng.choice(["params", "params", "body"])
    n = rng.choice([2, 2, 3, 4, 6, 9] + ([40] if mode == "params" else []))
    parts = []
    for k in range(n):
        p = {"p": ops.gen_params(rng, zero=0.2)}
        if p["p"]["how"] != "zero":
            f = rng.choice([1, 1, 1, 1e-3, 1e3])
            p["p"]["m"] = [m * f for m in p["p"]["m"]]
        if mode == "body":
            p["s"] = [geom.gen_shape(rng, ("box", "ell", "cyl", "cap", "poly")) for _ in range(rng.choice([1, 1, 2, 3]))]
            for s in p["s"]:
                s["c"] = [rng.uniform(-2, 2) for _ in range(3)] if s["k"] != "poly" else None
            if rng.random() < 0.1:
                p["s"].append(geom.almost(rng, p["s"][0]))
            if rng.random() < 0.2:
                p["p"] = None
            p["bare"] = len(p["s"]) == 1 and rng.random() < 0.5
            if parts and rng.random() < 0.2:
                # one more shape: the very object that another part has
                j = rng.randrange(len(parts))
                i = rng.randrange(len(parts[j]["s"]))
                p["alias"] = [j, i]
                p["s"].append(parts[j]["s"][i])
                p["bare"] = False
        parts.append(p)
    r = rng.random()
    solid = [p["p"] for p in parts if p["p"] is not None and p["p"]["how"] != "zero"]
    if r < 0.15 and solid:
        # a very light part, possibly far away from the others
        for q in rng.sample(solid, rng.choice([1, 1, len(solid) // 2 or 1])):
            f, d = 10 ** rng.uniform(-13, -6), 10 ** rng.uniform(-3, 6)
            q["m"] = [m * f for m in q["m"]]
            q["p"] = [[x * d for x in y] for y in q["p"]]
    elif r < 0.2:
        f = 10 ** rng.uniform(-9, 9)
        for q in solid:
            q["m"] = [m * f for m in q["m"]]
    if 0.2 < r < 0.3:
        for p in parts:
            p["p"] = {"k": "params", "how": "zero"} if mode == "params" else None
    nth = rng.choice([1, 1, 2, 3]) if n > 2 else rng.choice([1, 2])
    threads = []
    for t in range(nth):
        own = [k for k in range(n) if k % nth == t]
        if rng.random() < 0.4:
            own.append(rng.randrange(n))  # also used elsewhere
        rng.shuffle(own)
        steps = []
        m = len(own)
        while m > 1 or (not steps and rng.random() < 0.8):
            r = rng.random()
            if r < 0.05 and len(own) < 10:
                steps.append(["dup", rng.randrange(m)])
            elif r < 0.25:
                steps.append(["T", rng.randrange(m), geom.gen_T(rng)])
            elif r < 0.35 and mode == "params":
                steps.append(["conv", rng.randrange(m), rng.choice(["vec", "pim", "com_H", "h_I", "tfc"])])
            elif m == 1:
                break
            elif r < 0.5:
                k = rng.randint(2, m)
                steps.append(["sum", rng.sample(range(m), k)])
                m -= k - 1
            else:
                a, b = rng.sample(range(m), 2)
                steps.append([rng.choice(["add", "add", "radd", "iadd"]), a, b])
                m -= 1
            if len(steps) > 3 * n + 6:
                steps.append(["sum", list(range(m))])
                m = 1
        threads.append({"own": own, "steps": steps})
    s = core.gen_sched(rng, nth)
    s["faults"] = [[rng.randrange(nth), rng.randint(1, 200), rng.choice(["KeyboardInterrupt", "MemoryError"])] for _ in range(rng.choice([0, 0, 1, 3]))]
    return {"mode": mode, "parts": parts, "threads": threads, "sched": s, "final": rng.choice(["sum", "left", "right", "iadd"]), "Tend": geom.gen_T(rng)}


def build_part(p, mode, parts=()):
    par = ops.build_params(p["p"]) if p["p"] is not None else None
    if mode == "params":
        return par
    if p.get("alias"):
        j, i = p["alias"]
        shapes = [geom.build(s) for s in p["s"][:-1]] + [parts[j].shapes[i]]
    else:
        shapes = [geom.build(s) for s in p["s"]]
    return rg.RigidBody(shapes[0] if p.get("bare") else shapes, params=par)


def convert(p, how):
    C = rg.InertialParameters
    if how == "vec":
        return C.from_vec(p.vec)
    if how == "pim":
        return C.from_pim(p.J)
    if how == "com_H":
        return C(mass=p.mass, com=p.com, H=p.H)
    if how == "h_I":
        return C(mass=p.mass, h=p.h, I=p.I)
    return C(mass=p.mass, com=p.com, I=p.Ic, translate_from_com=True)


def run(plan, ctx):
    mode = plan["mode"]
    parts = []
    for p in plan["parts"]:
        parts.append(build_part(p, mode, parts))
    mats = [
        Material.of(p["p"], [((k, j), geom.M(s)) for j, s in enumerate(p.get("s", []))]) for k, p in enumerate(plan["parts"])
    ]
    before = [ops.canon(o) for o in parts]
    every = []  # all intermediates with their models
    finals = {}

    def task(t):
        th = plan["threads"][t]

        def body():
            items = [(parts[k], mats[k]) for k in th["own"]]
            for st in th["steps"]:
                for attempt in range(6):
                    try:
                        if st[0] == "T":
                            o, m = items[st[1]]
                            T = st[2]
                            r = o.transform(rotation=geom.arr(T.get("R")), translation=geom.arr(T.get("t")))
                        elif st[0] == "conv":
                            o, m = items[st[1]]
                            r = convert(o, st[2])
                        elif st[0] == "sum":
                            r = sum([items[k][0] for k in st[1]])
                        elif st[0] == "dup":
                            r = items[st[1]][0] + items[st[1]][0]
                        elif st[0] == "iadd":
                            r = items[st[1]][0]
                            r += items[st[2]][0]
                        elif st[0] == "radd":
                            r = 0 + items[st[2]][0] + items[st[1]][0]
                        else:
                            r = items[st[1]][0] + items[st[2]][0]
                        break
                    except BaseException as e:
                        if not is_simulated(e):
                            raise
                        core.retrace()
                        ctx.probe("repeated-step")
                if st[0] == "T":
                    items[st[1]] = (r, m.move(T))
                    every.append((f"after {st[0]}", *items[st[1]]))
                elif st[0] == "conv":
                    items[st[1]] = (r, m)
                    every.append((f"after conv {st[2]}", *items[st[1]]))
                elif st[0] == "dup":
                    m = items[st[1]][1]
                    items[st[1]] = (r, m.plus(m))
                    every.append(("after adding a part to itself", *items[st[1]]))
                    ctx.fault("merge")
                else:
                    idx = st[1] if st[0] == "sum" else ([st[2], st[1]] if st[0] == "radd" else st[1:3])
                    mm = items[idx[0]][1]
                    for k in idx[1:]:
                        mm = mm.plus(items[k][1])
                    items = [x for k, x in enumerate(items) if k not in idx] + [(r, mm)]
                    every.append((f"after {st[0]}", r, mm))
                    ctx.fault("merge")
            finals[t] = items

        return body

    run_tasks([task(t) for t in range(len(plan["threads"]))], plan["sched"], ctx)

    left = [x for t in sorted(finals) for x in finals[t]]
    tot_m = left[0][1]
    for _, m in left[1:]:
        tot_m = tot_m.plus(m)
    if plan["final"] == "sum":
        tot = sum([o for o, _ in left])
    elif plan["final"] == "iadd":
        tot = left[0][0]
        for o, _ in left[1:]:
            tot += o
    elif plan["final"] == "left":
        tot = left[0][0]
        for o, _ in left[1:]:
            tot = tot + o
    else:
        tot = left[-1][0]
        for o, _ in left[-2::-1]:
            tot = o + tot
    every.append(("total", tot, tot_m))
    T = plan["Tend"]
    R, t = geom.arr(T.get("R")), geom.arr(T.get("t"))
    every.append(("total, moved", tot.transform(rotation=R, translation=t), tot_m.move(T)))
    # transforming the pieces first gives the same
    moved = sum([o.transform(rotation=R, translation=t) for o, _ in left])
    every.append(("pieces moved, then merged", moved, tot_m.move(T)))
    a, b = every[-1][1], every[-2][1]
    pa, pb = (a, b) if mode == "params" else (a.params, b.params)
    if not pa.is_same(pb):
        raise Violation("order", "moving before and after the merge are not the same parameters")

    for what, o, m in every:
        ctx.evals += 1
        if mode == "params":
            m.check_params(o, what)
        else:
            m.check_params(o.params, what)
            m.check_shapes(o.shapes, what)
        ctx.log(what, len(m.m), len(m.shapes))
    for k, (o, c) in enumerate(zip(parts, before)):
        d = ops.same(c, ops.canon(o), 0)
        if d:
            raise Violation("operand-changed", f"part {k}: {d}")
    # massless parts are neutral
    for k, p in enumerate(plan["parts"][:3]):
        z = rg.InertialParameters.zero()
        o = parts[k] if mode == "params" else parts[k].params
        for what, r in (("x + zero", o + z), ("zero + x", z + o), ("sum", sum([z, o, z]))):
            mats[k].check_params(r, f"part {k}: {what}")
            if not r.is_same(o):
                raise Violation("neutral", f"part {k}: {what} is not the same as x")


def nontrivial(plan, res):
    return res["faults"].get("merge", 0) >= 2


def shrink(plan):
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    if len(plan["threads"]) > 1:
        for t in range(len(plan["threads"])):
            yield dict(plan, threads=plan["threads"][:t] + plan["threads"][t + 1 :], sched=dict({k: v for k, v in plan["sched"].items() if k != "switches"}, faults=[]))
    for t, th in enumerate(plan["threads"]):
        if th["steps"]:
            n = len(th["steps"])
            for cut in {n // 2, n - 1}:
                ths = [dict(x) for x in plan["threads"]]
                ths[t]["steps"] = th["steps"][:cut]
                yield dict(plan, threads=ths)
        for k, st in enumerate(th["steps"]):
            if st[0] in ("T", "conv", "dup"):
                ths = [dict(x) for x in plan["threads"]]
                ths[t]["steps"] = th["steps"][:k] + th["steps"][k + 1 :]
                yield dict(plan, threads=ths)
        if len(th["own"]) > 1 and not th["steps"]:
            ths = [dict(x) for x in plan["threads"]]
            ths[t]["own"] = th["own"][:-1]
            yield dict(plan, threads=ths)
    if plan["Tend"].get("R") or plan["Tend"].get("t"):
        yield dict(plan, Tend={"R": None, "t": None})
