"""C11: work resumes identically from a checkpoint after a crash."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

import core
import geom
import isolated
import ops
import zygote
from core import Violation, Tracer, is_simulated, fork_call
from world import rg

CONFIG = {
    "runs": {"quick": 1200, "thorough": 40000},
    "rule": "A run is a session of up to 14 steps (queries, draws from one shared generator, steps deriving new objects) with "
    "checkpoints written to a simulated disk. The process dies at a chosen traced line of a chosen step, or right after it, up "
    "to three times; the next process (a pristine fork, or an interpreter with another hash seed) restores the newest "
    "checkpoint and continues; steps may also be interrupted and rolled back to an in-memory copy. All step results, the "
    "final objects and the final generator state are compared with an uninterrupted run. Non-trivial: at least one crash or rollback happened and a later step ran.",
    "real": ["all rigeo object code", "pickle and copy", "numpy generators", "process death (a forked process really exits)", "numpy, scipy, cdd, cvxpy, Clarabel"],
    "stub": ["the disk is a scratch directory: a checkpoint is either complete or absent"],
    "assumptions": ["checkpoints are taken with pickle (protocols 2-5) or copy.deepcopy between steps"],
}

ME = "props.c11"
DERIVE = ("transform", "rotate_about_center", "par_T", "par_add", "par_sum", "body_T", "body_add", "face_T", "span_T", "pol_add", "pol_loc", "mm_new", "pol_affine")
BITGENS = ("PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM")
HSEEDS = {"quick": [4242], "thorough": [4242, 99]}


# ----------------------------------------------------------------- generation
def gen(rng, tier, i):
    first = None
    if i % 3:
        pool, first = ops.gen_target(rng, i - i // 3)
        pool += ops.gen_pool(rng, rng.choice([0, 0, 1, 2]))
    else:
        pool = ops.gen_pool(rng, rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.15:
        geom.make_thin(rng, pool)
    shadow = list(pool)
    steps = []
    sv = rng.choice([0.0, 0.05, 0.4])
    n = rng.choice([3, 6, 10, 14])
    for _ in range(n):
        r = rng.random()
        if first and r < 0.3:
            x = ops.OPS[first["op"]]["gen"](rng, shadow, first["i"])
            o = {"op": first["op"], "i": first["i"], "x": x} if x is not None else dict(first)
        elif r < 0.45:
            o = ops.gen_op(rng, shadow, solver=sv, heavy=0.1)
        elif r < 0.65:
            o = ops.gen_op(rng, shadow, rand=True)
        else:
            o = ops.gen_op(rng, shadow, only=DERIVE)
            if o:
                sh = copy.deepcopy(shadow[o["i"]])
                if o["op"] == "mm_new":
                    sh = {"k": "mm", "n": o["x"]["n"], "d": o["x"]["d"]}
                elif o["op"] == "pol_affine":
                    sh = {"k": "pol", "n": len(o["x"]["a"]), "co": [[[0] * len(o["x"]["a"]), 1.0]]}
                shadow.append(sh)
                o = dict(o, store=1)
        if o is None:
            continue
        if rng.random() < 0.12:
            o["intr"] = {"at": rng.choice([1, 2, 5, rng.randint(1, 60), rng.randint(1, 300)]), "e": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError"]), "via": rng.choice(["deepcopy", "pickle"])}
        steps.append(o)
    n = len(steps)
    ck = [k for k in range(1, n) if rng.random() < rng.choice([0.3, 0.8])]
    crashes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        crashes.append({"step": rng.randrange(max(1, n)), "at": rng.choice([1, 2, 3, rng.randint(1, 40), rng.randint(1, 400)])})
    hs = rng.choice(HSEEDS[tier])
    gens = [rng.choice([None, hs]) for _ in range(len(crashes) + 1)]
    return {
        "pool": pool,
        "steps": steps,
        "ck": ck,
        "proto": rng.choice([2, 3, 4, 5]),
        "split": rng.random() < 0.3,
        "crash": crashes,
        "gens": gens,
        "bg": rng.choice(BITGENS),
        "seed": rng.randrange(1 << 30),
    }


# ------------------------------------------------------------------ execution
def new_state(plan):
    bg = getattr(np.random, plan["bg"])(plan["seed"])
    return {"objs": ops.build_pool(plan["pool"]), "rng": np.random.Generator(bg), "next": 0}


def dump(state, plan):
    p = plan["proto"]
    if plan["split"]:
        return pickle.dumps({"objs": [pickle.dumps(o, p) for o in state["objs"]], "rng": pickle.dumps(state["rng"], p), "next": state["next"], "split": 1}, p)
    return pickle.dumps(state, p)


def load(data):
    s = pickle.loads(data)
    if s.get("split"):
        return {"objs": [pickle.loads(o) for o in s["objs"]], "rng": pickle.loads(s["rng"]), "next": s["next"]}
    return s


def do_step(o, state):
    objs = state["objs"]
    for j in ops.needs(o):
        if objs[j] is None:
            if o.get("store"):
                objs.append(None)
            return "no operand"
    try:
        v = ops.apply(o, ops.Env(objs, rng=state["rng"]))
        r = ops.canon(v)
    except BaseException as e:
        if is_simulated(e) or not isinstance(e, Exception):
            raise
        v, r = None, ("exc", type(e).__name__)
    if o.get("store"):
        objs.append(v)
    return r


def put(path, data):
    with open(path + ".tmp", "wb") as f:
        f.write(data)
    os.replace(path + ".tmp", path)


def settle(d):
    """Every process of one history sees the same scratch directories."""
    for s in ("cwd", "home", "tmp"):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    os.chdir(os.path.join(d, "cwd"))
    os.environ["HOME"] = os.environ["XDG_CACHE_HOME"] = os.path.join(d, "home")
    os.environ["TMPDIR"] = os.path.join(d, "tmp")
    tempfile.tempdir = None


def serve(req):
    """One process's life: restore (or start), work, die or finish."""
    plan, d, g, reference = req["plan"], req["dir"], req["gen"], req["ref"]
    settle(d)
    crash = None if reference or g >= len(plan["crash"]) else plan["crash"][g]
    cks = [f for f in os.listdir(d) if f.startswith("ck-") and not f.endswith(".tmp")]
    if cks:
        name = max(cks, key=lambda f: int(f[3:]))
        with open(os.path.join(d, name), "rb") as f:
            state = load(f.read())
    else:
        state = new_state(plan)
    start = state["next"]
    journal = []
    rolled = 0
    for k in range(start, len(plan["steps"])):
        o = plan["steps"][k]
        if not reference and o.get("intr"):
            it = o["intr"]
            saved = copy.deepcopy(state) if it["via"] == "deepcopy" else pickle.loads(pickle.dumps(state, plan["proto"]))
            tr = Tracer(budget=40_000_000)
            tr.fault_at, tr.fault_exc = it["at"], it["e"]
            try:
                with tr:
                    do_step(o, state)
            except BaseException as e:
                if not is_simulated(e):
                    raise
            if tr.fired:
                rolled += 1
            state = saved
        if crash is not None and crash["step"] == k:

            def die(where):
                put(os.path.join(d, f"death-{g}"), where.encode())
                put(os.path.join(d, f"journal-{g}"), pickle.dumps((start, journal, rolled)))
                os._exit(77)

            tr = Tracer(budget=40_000_000)
            tr.fault_at, tr.fault_exc = crash["at"], die
            with tr:
                journal.append(do_step(o, state))
            die("after step")
        journal.append(do_step(o, state))
        state["next"] = k + 1
        if not reference and k + 1 in plan["ck"]:
            put(os.path.join(d, f"ck-{k + 1}"), dump(state, plan))
    return {
        "start": start,
        "journal": journal,
        "rolled": rolled,
        "probes": [isolated.safe_probe(o) if o is not None else None for o in state["objs"]],
        "rng": repr(state["rng"].bit_generator.state),
    }


def prepare(plan):
    for h in plan["gens"]:
        if h is not None:
            zygote.get(h, ME)


def abandon():
    zygote.kill_all()


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix="rigeo-sim-")
    try:
        _run(plan, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def value(st, v, what):
    if st == "ok":
        return v
    if st == "exc":
        name, msg, tb = v
        if core.from_code_under_test(tb) or "pickle" in msg.lower() or name in ("PicklingError", "UnpicklingError", "AttributeError", "TypeError"):
            raise Violation("cannot-continue", f"{what}: {name}: {msg}", traceback=tb[-2500:])
        raise RuntimeError(f"{what}: {name} {msg}\n{tb}")
    raise RuntimeError(f"{what}: {st} {v}")


def _run(plan, ctx, base):
    a, b = os.path.join(base, "a"), os.path.join(base, "b")
    os.makedirs(a)
    os.makedirs(b)
    steps = plan["steps"]
    st, v = fork_call(lambda: serve({"plan": plan, "dir": a, "gen": 0, "ref": True}), timeout=150)
    ref = value(st, v, "uninterrupted run")
    g = 0
    lives = []
    while True:
        hs = plan["gens"][min(g, len(plan["gens"]) - 1)]
        req = {"plan": plan, "dir": b, "gen": g, "ref": False}
        st, v = fork_call(lambda: serve(req), timeout=150) if hs is None else zygote.call(hs, ME, req)
        ctx.probe("process-same-hash" if hs is None else "process-other-hash")
        jp = os.path.join(b, f"journal-{g}")
        if st == "died" and os.path.exists(jp):
            start, journal, rolled = pickle.load(open(jp, "rb"))
            where = open(os.path.join(b, f"death-{g}")).read()
            ctx.fault("crash:mid-step" if where != "after step" else "crash:after-step")
            ctx.sites.add(where)
            ctx.log("crash", g, where)
        else:
            if st == "died":
                raise Violation("process-died", f"process {g}: {v}")
            v = value(st, v, f"process {g} (started after {g} crashes)")
            start, journal, rolled = v["start"], v["journal"], v["rolled"]
            ctx.log("finished", g, start)
        if rolled:
            ctx.fault("interrupt-rolled-back", rolled)
        ctx.fault("restored" if start else "started", 1)
        for k, r in enumerate(journal):
            o = steps[start + k]
            ctx.evals += 1
            d = ops.same(ref["journal"][start + k], r, ops.tol_of(o))
            ctx.log("step", start + k, o["op"], str(r)[:80])
            if d:
                raise Violation("resumed-differently", f"step {start + k} {isolated.describe_any(o, plan['pool'])} in process {g} (resumed at step {start}): uninterrupted vs resumed: {d}")
        if st != "died":
            break
        g += 1
    ctx.steps += len(steps) * (g + 1)
    if len(v["probes"]) != len(ref["probes"]):
        raise Violation("resumed-differently", f"{len(ref['probes'])} objects without, {len(v['probes'])} with crashes")
    for j, (x, y) in enumerate(zip(ref["probes"], v["probes"])):
        ctx.evals += 1
        d = ops.same(x, y)
        if d:
            raise Violation("resumed-differently", f"object {j} at the end: {d}")
    if ref["rng"] != v["rng"]:
        raise Violation("resumed-differently", "the generator ended in another state")


def nontrivial(plan, res):
    f = res["faults"]
    return any(k.startswith("crash") for k in f) or "interrupt-rolled-back" in f


def shrink(plan):
    for k in range(len(plan["crash"])):
        yield dict(plan, crash=plan["crash"][:k] + plan["crash"][k + 1 :])
    if any(h is not None for h in plan["gens"]):
        yield dict(plan, gens=[None] * len(plan["gens"]))
    for k, o in enumerate(plan["steps"]):
        if o.get("intr"):
            c = dict(plan, steps=[dict(s) for s in plan["steps"]])
            c["steps"][k].pop("intr")
            yield c
    # drop trailing steps, then single ones that derive nothing
    n = len(plan["steps"])
    for m in (n // 2, n - 1):
        if 0 < m < n:
            yield trimmed(plan, plan["steps"][:m], m)
    for k, o in enumerate(plan["steps"]):
        if not o.get("store"):
            yield trimmed(plan, plan["steps"][:k] + plan["steps"][k + 1 :], k)


def trimmed(plan, steps, k):
    """``steps`` with everything from position k on moved forward by one."""
    n = len(steps)
    mv = lambda s: s - 1 if s > k else s
    return dict(
        plan,
        steps=steps,
        ck=sorted({mv(c) for c in plan["ck"] if mv(c) < n}),
        crash=[dict(c, step=min(max(0, n - 1), mv(c["step"]))) for c in plan["crash"]],
    )
