"""C15: results do not depend on what the process did before."""
import copy
import gc

import numpy as np

import core
import geom
import isolated
import ops
import solver as simsolver
from props import c07
from core import Violation, Pristine, Tracer, is_simulated
from world import rg

CONFIG = {
    "runs": {"quick": 2000, "thorough": 30000},
    "rule": "A run is a long single-process history over a pool of objects, their equal twins and their near-duplicates: "
    "queries, calls that fail, results the caller writes into, objects dropped and re-created (so addresses are reused), garbage collections, mass "
    "creation, solver failures; sampled results are compared with the same call made first thing in a pristine fork. "
    "Non-trivial: at least one event preceded a compared call.",
    "real": ["all rigeo object code", "numpy, scipy, cdd, cvxpy, Clarabel"],
    "stub": ["solver failures in some histories"],
    "assumptions": ["the history runs in one process and thread"],
}


def jitter(rng, v):
    """A slightly different value of the same structure."""
    if isinstance(v, list):
        v = copy.deepcopy(v)
        if v:
            k = rng.randrange(len(v))
            v[k] = jitter(rng, v[k])
        return v
    if isinstance(v, bool) or v is None:
        return v
    return v * rng.choice([1.0 + 1e-3, 1.3, 0.7]) + (0.0 if v else 0.2)


def variant(rng, spec):
    """A near-duplicate that differs in one field only."""
    s = copy.deepcopy(spec)
    s.pop("via", None)
    k = s["k"]
    if k == "ell" and len(s["he"]) == 3 and rng.random() < 0.25:
        # flat, or a needle
        j = rng.randrange(3)
        flat = rng.random() < 0.5
        s["he"] = [(0.0 if (t == j) == flat else (h or 1.0)) for t, h in enumerate(s["he"])]
        return s
    if k in ("box", "ell", "cyl", "cap"):
        d = geom.M(spec).dim
        f = rng.choice(["c", "c", "R", "size", "size"])
        if f == "c":
            s["c"] = jitter(rng, s.get("c") or [0.0] * d)
        elif f == "R" and d > 1:
            s["R"] = geom.rot(rng, d).tolist()
        elif k in ("box", "ell"):
            s["he"] = [h * (1.25 if j == 0 else 1.0) for j, h in enumerate(s["he"])]
        else:
            f = rng.choice(["l", "r"])
            s[f] = s[f] * 1.25
        return s
    if k in ("poly", "simplex") and "V" in s:
        c = np.mean(s["V"], axis=0)
        s["V"] = (c + (np.array(s["V"]) - c) * rng.choice([1.1, 0.8])).tolist()
        return s
    if k == "params" and s["how"] != "zero":
        if rng.random() < 0.5:
            s["m"] = [m * 1.5 for m in s["m"]]
        else:
            s["p"] = [[x + 0.1 for x in p] for p in s["p"]]
        return s
    if k == "pol":
        s["co"][0][1] += 1.0
        return s
    if k == "sv":
        s["l"][0] += 1.0
        return s
    if k == "mm":
        # often one with a matrix of the same size
        s["n"], s["d"] = rng.choice([(s["d"], s["n"]), (s["d"], s["n"]), (3, 1), (1, 3), (2, 2), (1, 5)])
        return s
    if k == "face":
        s["b"] = [x * 1.1 for x in s["b"]]
        return s
    return s


def leaves_of(v, keys=None, path=()):
    """Paths to the numbers in a structure."""
    if isinstance(v, dict):
        return [x for k in sorted(v) if keys is None or k in keys for x in leaves_of(v[k], None, path + (k,))]
    if isinstance(v, list):
        return [x for k, y in enumerate(v) for x in leaves_of(y, None, path + (k,))]
    return [path] if isinstance(v, float) else []


def put(v, path, x):
    for k in path[:-1]:
        v = v[k]
    v[path[-1]] = x


def get(v, path):
    for k in path:
        v = v[k]
    return v


NUMBERS = ("c", "he", "l", "r", "e", "V", "m", "p", "b", "A", "co", "a", "via", "t")


def whisper(rng, spec):
    """A near-duplicate closer than any sensible rounding."""
    s = copy.deepcopy(spec)
    at = leaves_of(s, NUMBERS)
    at = [a for a in at if "R" not in a]
    for a in rng.sample(at, min(len(at), rng.choice([1, 1, 3]))):
        put(s, a, get(s, a) * (1 + rng.choice([-1, 1]) * 10 ** rng.choice([rng.uniform(-7.5, -6.3), rng.uniform(-6.3, -4)])))
    return s


def collide(rng, spec):
    """Change a number of the object to -1.0; the result is the same object with -2.0, which has the same hash."""
    s = spec
    if s["k"] == "pol" and s["n"] > 1 and rng.random() < 0.7:
        # terms that read the same: x^1,11 and x^11,1
        t = rng.randrange(len(s["co"]))
        a, b = rng.choice([(1, 11), (1, 12), (2, 22), (1, 10)])
        k = rng.randrange(s["n"] - 1)
        s["co"][t][0][k : k + 2] = [a, b]
        v = copy.deepcopy(s)
        v["co"][t][0][k : k + 2] = [int(x) for x in (f"{a}{b}"[:-1], f"{a}{b}"[-1])]
        return v
    if s["k"] == "box" and rng.random() < 0.5:
        k = rng.randrange(3)
        s.pop("via", None)
        s.update(R=None, he=[0.5 if j == k else h for j, h in enumerate(s["he"])], c=[1.5 if j == k else x for j, x in enumerate(s.get("c") or [0.0] * 3)])
        v = copy.deepcopy(s)
        v["c"][k] = 2.5  # a face offset of -1 becomes -2
        return v
    at = [a for a in leaves_of(s, ("c", "p", "co", "b") + (("l", "a") if s["k"] == "sv" else ()))]
    if not at:
        return None
    a = rng.choice(at)
    put(s, a, -1.0)
    v = copy.deepcopy(s)
    put(v, a, -2.0)
    return v


def OWN(name):
    """Operations whose result belongs to the caller, who may write into it."""
    return name.startswith("util_") or name in c07.COPIES


NBAD = 16


def gen(rng, tier, i):
    # two of three runs concentrate on one operation, in turn
    first = None
    if i % 3:
        base, first = ops.gen_target(rng, i - i // 3)
    else:
        base = ops.gen_pool(rng, rng.choice([1, 2, 3]))
    if rng.random() < 0.1:
        geom.make_thin(rng, base)
    if rng.random() < 0.1:
        for s in base:
            if s["k"] == "ell" and len(s["he"]) == 3:
                s["he"][rng.randrange(3)] = 0.0
    pool = list(base)
    for k in range(rng.choice([1, 1, 2, 3])):
        j = rng.randrange(len(base))
        r = rng.random()
        if base[j]["k"] == "body":
            pool.append(copy.deepcopy(base[j]))
        elif base[j]["k"] == "pol" and r > 0.5 and (v := collide(rng, base[j])):
            pool.append(v)
        elif r < 0.35:
            pool.append(whisper(rng, base[j]))
        elif r < 0.5 and not first and (v := collide(rng, base[j])):
            pool.append(v)
        else:
            pool.append(variant(rng, base[j]))
    # an equal twin of something
    j = rng.randrange(len(pool))
    pool.append(copy.deepcopy(pool[j]))
    twin = None
    if first and rng.random() < 0.5:
        at = [a for a in leaves_of(first["x"]) if not any(k in a for k in ("R", "i", "j", "tol"))]
        if at:
            a = rng.choice(at)
            put(first["x"], a, -1.0)
            twin = copy.deepcopy(first)
            put(twin["x"], a, -2.0)
    menu = [first] * 3 if first else []
    sv = rng.choice([0.05, 0.05, 0.6])
    for _ in range(rng.choice([0, 1, 3]) if first else rng.choice([2, 3, 5])):
        o = ops.gen_op(rng, pool, rand=rng.random() < 0.15, solver=sv, heavy=0.12) or ops.gen_op(rng, pool, solver=0, heavy=0)
        if o:
            menu.append(o)
    ev = []
    for _ in range(rng.choice([5, 15, 30])):
        r = rng.random()
        if r < 0.62 and menu:
            o = rng.choice(menu)
            if rng.random() < 0.75:
                # the same operation on any member of the same kind
                same = [j for j, s in enumerate(pool) if s["k"] == pool[o["i"]]["k"]]
                j = rng.choice(same)
                d = ops.OPS[o["op"]]
                x = o["x"] if rng.random() < 0.4 and "j" not in o["x"] and ops.dim_of(pool[j]) == ops.dim_of(pool[o["i"]]) else d["gen"](rng, pool, j)
                if x is not None:
                    if rng.random() < 0.3:
                        x = nudge(rng, x)
                    o = {"op": o["op"], "i": j, "x": x}
            e = {"op": o, "deep": ops.OPS[o["op"]]["new"] and rng.random() < 0.4, "check": rng.random() < 0.3}
            if ops.OPS[o["op"]]["solver"] and rng.random() < 0.3:
                e["solver"] = [rng.choice([["raise", "SolverError"], ["iter", 2], ["status", "NumericalError"], ["status", "PrimalInfeasible"]])]
                e["check"] = False
            if OWN(o["op"]) and rng.random() < 0.4:
                e["overwrite"] = rng.choice(["nan", "big", "shift", "zero"])
            ev.append(e)
        elif r < 0.74:
            ev.append({"bad": rng.randrange(NBAD), "i": rng.randrange(len(pool))})
        elif r < 0.86:
            ev.append({"drop": rng.randrange(len(pool)), "gc": rng.random() < 0.3})
        elif r < 0.93:
            ev.append({"churn": rng.choice([3, 40, 300]), "seed": rng.randrange(1 << 30)})
        else:
            ev.append({"gc": 1})
    if twin:
        ev.insert(rng.randrange(len(ev)), {"op": twin, "deep": ops.OPS[twin["op"]]["new"], "check": False})
    if first and rng.random() < 0.6:
        # the very same question to everything of the same kind
        o = first
        same = [j for j, q in enumerate(pool) if q["k"] == pool[o["i"]]["k"] and ops.dim_of(q) == ops.dim_of(pool[o["i"]])]
        rng.shuffle(same)
        for j in same[:3] if "j" not in o["x"] else []:
            e = {"op": {"op": o["op"], "i": j, "x": o["x"]}, "deep": ops.OPS[o["op"]]["new"] and rng.random() < 0.4, "check": rng.random() < 0.5}
            ev.insert(rng.randrange(len(ev) + 1), e)
    # the end of the story: each operation of the menu once more
    for o in (menu if not first else menu[2:])[:4]:
        ev.append({"op": o, "deep": ops.OPS[o["op"]]["new"], "check": True})
    return {"pool": pool, "ev": ev}


def nudge(rng, x):
    """Arguments almost the same, or with the same hash."""
    at = [a for a in leaves_of(x) if not any(k in a for k in ("R", "i", "j"))]
    if not at:
        return x
    x = copy.deepcopy(x)
    twins = [a for a in at if get(x, a) in (-1.0, -2.0)]
    a = rng.choice(twins if twins and rng.random() < 0.7 else at)
    v = get(x, a)
    put(x, a, {-1.0: -2.0, -2.0: -1.0}.get(v, v * (1 + 10 ** rng.uniform(-6.5, -4))))
    return x


def bad_call(k, o):
    V = np.eye(3)
    if k == 0:
        o.contains(np.zeros((2, 7)))
    elif k == 1:
        o.transform(rotation=np.eye(2))
    elif k == 2:
        o.transform(translation=np.zeros(5))
    elif k == 3:
        rg.Box([1, -1, 1])
    elif k == 4:
        rg.Ellipsoid([1, np.nan, 1])
    elif k == 5:
        o.intersect(3)
    elif k == 6:
        rg.ConvexPolyhedron.from_halfspaces(np.eye(3), np.ones(3))  # unbounded
    elif k == 7:
        rg.InertialParameters(mass=-1)
    elif k == 8:
        rg.InertialParameters(mass=1, h=np.zeros(3), com=np.zeros(3))
    elif k == 9:
        o.random_points(shape="many", rng=0)
    elif k == 10:
        rg.rejection_sample([o], rg.Box([0.1] * 3, center=[50, 50, 50]), 3, rng=0, max_tries=4)
    elif k == 11:
        rg.closest_points(o, 5)
    elif k == 12:
        rg.Polynomial({"210": 1, "00": 2})
    elif k == 13:
        o.must_contain("points")
    elif k == 14:
        o + 5
    elif k == 15:
        rg.SpanForm(vertices=None, rays=None)


def churn(e):
    g = np.random.RandomState(e["seed"])
    keep = []
    for t in range(e["churn"]):
        he = g.uniform(0.3, 1.5, 3)
        c = g.normal(size=3)
        kind = t % 5
        if kind == 0:
            o = rg.Box(he, center=c)
            o.contains(c)
        elif kind == 1:
            o = rg.Ellipsoid(he, center=c)
            o.contains(c)
        elif kind == 2:
            o = rg.InertialParameters(mass=1.0, com=c)
            o.J
        elif kind == 3:
            o = rg.Cylinder(length=he[0], radius=he[1], center=c)
            o.contains(c)
        else:
            o = rg.MomentIndex((1, 0, 2))
        if t % 7 == 0:
            keep.append(o)
    return keep


def run(plan, ctx):
    pool = plan["pool"]
    pris = Pristine(isolated.handler(pool))
    objs = ops.build_pool(pool)
    cache = {}
    before = 0
    kept = []
    tracer = Tracer(budget=60_000_000)
    for e in plan["ev"]:
        if "op" in e:
            sv = simsolver.SimSolver(e["solver"]) if e.get("solver") else None
            try:
                v = isolated.outcome(e["op"], objs, deep=e["deep"], solver=sv)
            except BaseException as x:
                if not is_simulated(x):
                    raise
                v = None
            if sv is not None and sv.calls:
                ctx.fault(f"solver:{e['solver'][0][0]}")
            ctx.fault("event:query")
            if e.get("overwrite"):
                # the caller does as it likes with what it got
                try:
                    r = ops.apply(e["op"], ops.Env(objs, rng=e["op"]["x"].get("seed", 0)))
                except Exception:
                    r = None
                for y in r if isinstance(r, tuple) else [r]:
                    if c07.scribble_object(y, e["overwrite"]):
                        ctx.fault("event:result-overwritten")
            if e["check"] and v is not None:
                key = repr((e["op"], e["deep"]))
                if key not in cache:
                    cache[key] = pris(("op", e["op"], e["deep"]))
                ctx.evals += 1
                d = ops.same(cache[key], v, ops.tol_of(e["op"]))
                ctx.log("query", e["op"]["op"], str(v)[:60])
                if d:
                    raise Violation("history-dependent", f"{isolated.describe(e['op'], pool)}: fresh process vs after {before} events: {d}")
                if before:
                    ctx.probe("compared-with-history")
        elif "bad" in e:
            try:
                bad_call(e["bad"], objs[e["i"]])
                ctx.probe("bad-call-accepted")
            except Exception:
                ctx.fault("event:failed-call")
        elif "drop" in e:
            i = e["drop"]
            # the body keeps its shapes alive; everything else goes away
            objs[i] = None
            if e["gc"]:
                gc.collect()
            objs[i] = ops.build_obj(pool[i], objs) if all(objs[j] is not None for j in (pool[i].get("s") or [])) else None
            ctx.fault("event:re-created")
        elif "churn" in e:
            kept = churn(e)
            ctx.fault("event:churn")
        else:
            gc.collect()
            ctx.fault("event:gc")
        before += 1
    for i, (o, ref) in enumerate(zip(objs, pris(("probes",)))):
        ctx.evals += 1
        d = ops.same(ref, isolated.safe_probe(o))
        if d:
            raise Violation("object-changed", f"{pool[i]['k']} {str(pool[i])[:200]}: {d}")
    pris.close()


def nontrivial(plan, res):
    return res["probes"].get("compared-with-history", 0) > 0


def shrink(plan):
    yield from core.shrink_lists(plan, ["ev"])
