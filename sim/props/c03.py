"""C03: randomised calls depend on nothing but the random source they are given."""
import random

import numpy as np

import core
import entropy
import geom
import ops
import zygote
from core import Violation, Pristine, is_simulated
from simlib import run_tasks
from world import rg

ME = "props.c03"

CONFIG = {
    "runs": {"quick": 900, "thorough": 40000},
    "rule": "A run is a process with a generated history (global reseeding, other randomised and deterministic calls, failed "
    "calls) and 1-3 threads issuing randomised calls with every kind of source next to global draws and untouched bystander "
    "generators, under a schedule with interrupts; every call's twin runs alone in a pristine process, in half of the runs one started with another hash seed. Non-trivial: at least one "
    "thread switch, interrupt or history event.",
    "real": ["all randomised rigeo operations", "numpy bit generators and distributions"],
    "stub": ["thread scheduler", "operating system entropy (seeded, counted)"],
    "assumptions": ["the operating system's entropy is reached through numpy's bit generators, secrets, os.urandom or random.SystemRandom"],
}

SRC = ["int", "int", "int", "npint", "list", "seq", "bitgen", "gen", "gen", "gen", "none"]
BG = ["PCG64", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"]


def gen_src(rng):
    k = rng.choice(SRC)
    s = {"t": k, "seed": rng.choice([0, 0, 1, rng.randrange(1 << 31), rng.randrange(1 << 31)])}
    if k in ("gen", "bitgen"):
        s["bg"] = rng.choice(BG)
        s["pre"] = rng.choice([0, 0, 1, 3, 17])
        s["how"] = rng.choice(["normal", "uniform", "u32"])
        s["clone"] = rng.random() < 0.3
    return s


def gen_item(rng, pool):
    if rng.random() < 0.2:
        return {"glob": rng.choice(["np", "py"]), "n": rng.randint(1, 4)}
    o = ops.gen_op(rng, pool, rand=True)
    if o is None:
        return {"glob": "np", "n": 1}
    return {"op": o, "src": gen_src(rng)}


def gen(rng, tier, i):
    pool = [geom.add_via(rng, geom.gen_shape(rng, (k,)), 0.3) for k in rng.sample(["box", "ell", "cyl", "cap", "poly", "box", "ell"], 3)]
    pool.append(ops.gen_params(rng))
    hist = []
    for _ in range(rng.randint(0, 6)):
        r = rng.random()
        if r < 0.25:
            hist.append({"reseed": rng.randrange(100)})
        elif r < 0.35:
            hist.append({"bad": rng.randrange(4)})
        elif r < 0.5:
            o = ops.gen_op(rng, pool, rand=False, solver=0, heavy=0)
            if o:
                hist.append({"op": o, "src": {"t": "int", "seed": 0}})
        else:
            hist.append(gen_item(rng, pool))
    nth = rng.choice([1, 1, 2, 3])
    tasks = [[gen_item(rng, pool) for _ in range(rng.randint(1, 4))] for _ in range(nth)]
    # the same call several times, with the same source description
    items = [it for t in tasks for it in t if "op" in it]
    if items and rng.random() < 0.6:
        it = rng.choice(items)
        rng.choice(tasks).append(it)
        if rng.random() < 0.5:
            hist.append(it)
    s = core.gen_sched(rng, nth)
    s["faults"] = [[rng.randrange(nth), rng.randint(1, 120), rng.choice(["KeyboardInterrupt", "MemoryError"])] for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"pool": pool, "hist": hist, "tasks": tasks, "sched": s, "glob": rng.randrange(1000), "os": rng.randrange(1 << 30), "hseed": rng.choice([None, 1, 2, 3])}


def make_src(s, twin=False):
    """The value passed as ``rng`` and the bit generator to watch (or None).

    The twin's generator may have got into the same state in another way."""
    t, seed = s["t"], s["seed"]
    if t == "int":
        return seed, None
    if t == "npint":
        return np.int64(seed), None
    if t == "list":
        return [seed, 3, 5], None
    if t == "seq":
        return np.random.SeedSequence(seed), None
    if t == "none":
        return None, None
    b = getattr(np.random, s["bg"])(seed)
    g = np.random.Generator(b)
    for _ in range(s["pre"]):
        if s["how"] == "u32":
            g.integers(0, 100, dtype=np.uint32)
        else:
            getattr(g, s["how"])()
    if s["clone"] and not twin:
        b2 = getattr(np.random, s["bg"])(12345)
        b2.seed_seq.spawn(1 + seed % 3)
        b2.state = b.state
        b = b2
        g = np.random.Generator(b)
    return (g if t == "gen" else b), b


def st(b):
    return repr(b.state)


def evaluate(pool, it):
    """One randomised call on private objects; what the pristine process runs."""
    objs = ops.build_pool(pool, ops.needs(it["op"]))
    src, b = make_src(it["src"], twin=True)
    before = st(b) if b is not None else None
    try:
        v = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=src)))
    except Exception as e:
        v = ("exc", type(e).__name__)
    return v, (st(b) if b is not None else None), before


def serve(req):
    return evaluate(*req)


def prepare(plan):
    if plan["hseed"] is not None:
        zygote.get(plan["hseed"], ME)


def abandon():
    zygote.kill_all()


def glob_state():
    s = np.random.get_state(legacy=False)
    return repr((s["state"]["pos"], s["has_gauss"], s["gauss"], s["state"]["key"].tobytes())), hash(random.getstate())


def draw(it):
    if it["glob"] == "np":
        return [float(np.random.normal()) for _ in range(it["n"])]
    return [random.random() for _ in range(it["n"])]


def empty(op):
    n = op["x"].get("n")
    return (n == 0 or (isinstance(n, list) and 0 in n)) and op["op"] not in ("par_random", "rand_fns")


def run(plan, ctx):
    pool = plan["pool"]
    # numpy may consult the operating system when it is first used
    np.random.seed(plan["glob"])
    random.seed(plan["glob"])
    pristine = Pristine(lambda it: evaluate(pool, it))
    tasks = plan["tasks"]
    ref = {}
    for t, its in enumerate(tasks):
        for k, it in enumerate(its):
            if "op" in it and it["src"]["t"] != "none":
                if plan["hseed"] is None:
                    ref[t, k] = pristine(it)
                    continue
                st_, ref[t, k] = zygote.call(plan["hseed"], ME, (pool, it))
                if st_ != "ok":
                    raise RuntimeError(f"twin: {ref[t, k]}")
                ctx.probe("twin-other-hash")
    objs = ops.build_pool(pool)
    bystanders = [np.random.default_rng(5), np.random.Generator(np.random.MT19937(5))]
    by0 = [st(b.bit_generator) for b in bystanders]

    with entropy.OsEntropy(plan["os"]) as dev:
        for it in plan["hist"]:
            ctx.fault("history")
            if "reseed" in it:
                np.random.seed(it["reseed"])
                random.seed(it["reseed"])
            elif "bad" in it:
                try:
                    bad_call(it["bad"])
                except Exception:
                    pass
            elif "glob" in it:
                draw(it)
            else:
                src, _ = make_src(it["src"])
                ops.apply(it["op"], ops.Env(objs, rng=src))
        # global draws as they come without any rigeo call in between
        nps, pys = np.random.get_state(), random.getstate()
        gl = {}
        for kind in ("np", "py"):
            for t, its in enumerate(tasks):
                n = sum(it["n"] for it in its if it.get("glob") == kind)
                gl[kind] = gl.get(kind, 0) + n
        expect = {"np": [float(np.random.normal()) for _ in range(gl["np"])], "py": [random.random() for _ in range(gl["py"])]}
        g_end = glob_state()
        np.random.set_state(nps)
        random.setstate(pys)

        got = {"np": [], "py": []}
        out = []
        nones = []
        calls0 = dev.calls
        none_calls = [0]

        def task(t):
            def body():
                for k, it in enumerate(tasks[t]):
                    if "glob" in it:
                        got[it["glob"]].extend(draw(it))
                        continue
                    for attempt in range(8):
                        src, b = make_src(it["src"])
                        try:
                            v = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=src)))
                        except BaseException as e:
                            if is_simulated(e):
                                core.retrace()
                                ctx.probe("repeated-call")
                                continue
                            if not isinstance(e, Exception):
                                raise
                            v = ("exc", type(e).__name__)
                        out.append((t, k, v, st(b) if b is not None else None))
                        break

            return body

        solo = len(tasks) == 1
        run_tasks([task(t) for t in range(len(tasks))], plan["sched"], ctx)
        seeded_only = all(it.get("src", {}).get("t") != "none" for its in tasks for it in its)
        used = dev.calls - calls0
        if seeded_only and used:
            raise Violation("os-entropy", f"{used} consultations of the operating system although every call was given a source")
        # outcomes
        if got["np"] != expect["np"] or got["py"] != expect["py"]:
            raise Violation("global-state", "another caller's draws from the global generators changed")
        if glob_state() != g_end:
            raise Violation("global-state", "a call moved a global random state")
        for t, k, v, s in out:
            ctx.evals += 1
            it = tasks[t][k]
            name = f"{it['op']['op']} on {pool[it['op']['i']]['k']} with {it['src']}"
            ctx.log(t, k, it["op"]["op"], str(v)[:80])
            if (t, k) not in ref:
                continue
            rv, rs, r0 = ref[t, k]
            d = ops.same(rv, v)
            if d:
                raise Violation("depends-on-more", f"{name}: result differs from the same call alone in a fresh process: {d}")
            if rs != s:
                raise Violation("generator-state", f"{name}: the generator ends in another state than when the call runs alone")
            if rs is not None and rs == r0 and not empty(it["op"]) and v[0] != "exc":
                raise Violation("not-advanced", f"{name}: the generator did not advance")
        for b, s in zip(bystanders, by0):
            if st(b.bit_generator) != s:
                raise Violation("bystander", "a generator nobody passed changed its state")

        # each call without a source is fresh; each call with one is not
        seen = []
        for its in tasks + [plan["hist"]]:
            for it in its:
                if "op" not in it or it["op"] in seen or not ops.OPS[it["op"]["op"]]["rand"]:
                    continue
                seen.append(it["op"])
                if len(seen) > 3 or empty(it["op"]):
                    continue
                vals = []
                for rep in range(3):
                    np.random.seed(plan["glob"])
                    random.seed(plan["glob"])
                    g0, c0 = glob_state(), dev.calls
                    vals.append(ops.canon(ops.apply(it["op"], ops.Env(objs, rng=None))))
                    if glob_state() != g0:
                        raise Violation("global-state", f"{it['op']['op']} without a source moved a global random state")
                    if dev.calls == c0:
                        raise Violation("not-fresh", f"{it['op']['op']} without a source drew nothing fresh")
                    ctx.evals += 1
                ctx.probe("fresh-call", 3)
                if any(ops.same(vals[a], vals[b], 1e-12) is None for a in range(3) for b in range(a)):
                    raise Violation("not-fresh", f"{it['op']['op']} on {pool[it['op']['i']]}: calls without a source repeat each other")
                # different seeds must not give the same answer either
                c0 = dev.calls
                a = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=11)))
                b = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=12)))
                if ops.same(a, b, 1e-12) is None:
                    raise Violation("ignores-seed", f"{it['op']['op']}: seeds 11 and 12 give the same result")
                g = np.random.default_rng(3)
                a = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=g)))
                b = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=g)))
                if ops.same(a, b, 1e-12) is None:
                    raise Violation("not-advanced", f"{it['op']['op']}: two calls on one generator give the same result")
                # one seed is good for any number of calls
                for src in ([7, 5], np.random.SeedSequence(7), np.array([7, 5])):
                    a = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=src)))
                    b = ops.canon(ops.apply(it["op"], ops.Env(objs, rng=src)))
                    d = ops.same(a, b)
                    if d:
                        raise Violation("depends-on-more", f"{it['op']['op']}: the same {type(src).__name__} as seed of two calls: {d}")
                if dev.calls != c0:
                    raise Violation("os-entropy", f"{it['op']['op']}: consulted the operating system although given a source")
    pristine.close()


def bad_call(k):
    if k == 0:
        rg.rejection_sample([rg.Box([1, 1, 1])], rg.Box([1, 1, 1], center=[9, 9, 9]), 2, rng=4, max_tries=3)
    elif k == 1:
        rg.Box([1, 1, 1]).random_points(shape="x", rng=3)
    elif k == 2:
        rg.Ellipsoid([1, 1, 1]).random_points(shape=2, rng="nonsense")
    else:
        rg.random_points_in_ball(shape=-3, dim=3, rng=0)


def nontrivial(plan, res):
    return bool(plan["hist"]) or bool(res["faults"])


def shrink(plan):
    yield from core.shrink_lists(plan, ["hist"])
    if len(plan["tasks"]) > 1:
        for t in range(len(plan["tasks"])):
            ts = plan["tasks"][:t] + plan["tasks"][t + 1 :]
            s = {k: v for k, v in plan["sched"].items() if k != "switches"}
            s["faults"] = []
            yield dict(plan, tasks=ts, sched=s)
    for t, its in enumerate(plan["tasks"]):
        for k in range(len(its)):
            if len(its) > 1:
                ts = [list(x) for x in plan["tasks"]]
                del ts[t][k]
                yield dict(plan, tasks=ts)
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    if plan["hseed"] is not None:
        yield dict(plan, hseed=None)
