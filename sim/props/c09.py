"""C09: realizability constraints never exclude mass that fits, across any reuse."""
import warnings

import numpy as np
import cvxpy as cp

import core
import geom
import oracle
import solver as simsolver
from core import Violation, Pristine, is_simulated
from world import rg

CONFIG = {
    "runs": {"quick": 480, "thorough": 24000},
    "rule": "A run builds the realizability constraints of one shape or multi-shape body once, as a parametrised problem, "
    "and asks it about 3-8 sets of parameters in a row, with solver calls that fail, stop early or are interrupted in "
    "between. Non-trivial: at least three definite verdicts or one injected solver fault.",
    "real": ["rigeo realizability constraints", "rigeo.moment", "cvxpy", "Clarabel numerics"],
    "stub": ["solver outcome (iteration limits, statuses, exceptions)"],
    "assumptions": ["masses lie at least 0.2% inside; margins of 5% for centres of mass outside",
                    "only definite solver verdicts are judged"],
}

METHODS = {
    "poly": ["sdp", "sdp_problem", "vertex"],
    "box": ["sdp", "sdp_problem", "vertex", "custom"],
    "cyl": ["sdp", "sdp_problem", "custom"],
    "ell": ["ell"],
    "body": ["body", "body", "body"],
}


def gen(rng, tier, i):
    kind = rng.choice(["poly", "box", "cyl", "ell", "ell", "body", "body"])
    if kind == "body":
        shapes = [geom.gen_shape(rng, ("box", "ell", "cyl", "poly"), degenerate=0.1) for _ in range(rng.choice([1, 2, 2, 3]))]
    elif kind == "ell":
        shapes = [geom.gen_ell(rng, degenerate=0.25)]
    elif kind == "poly":
        shapes = [geom.gen_poly(rng, nmax=7)]
    else:
        shapes = [geom.gen_shape(rng, (kind,))]
    for s in shapes:
        if s["k"] == "poly" and kind == "body":
            s.update(geom.gen_poly(rng, nmax=6))
        if rng.random() < 0.12:
            slim(rng, s)
        geom.add_via(rng, s, 0.3)
    asks = []
    for _ in range(rng.choice([3, 3, 4, 6, 8])):
        r = rng.random()
        a = {"seed": rng.randrange(1 << 30), "m": geom.gen_ext(rng, 0.2, 5)}
        if r < 0.55:
            a["what"] = "inside"
            a["n"] = rng.choice([1, 2, 3, 6, 12, 30])
            a["shrink"] = rng.choice([0.5, 0.9, 0.99])
            if rng.random() < 0.3:
                # all the mass near the surface
                a.update({"edge": True, "n": rng.choice([6, 12, 30]), "shrink": 0.998})
        elif r < 0.75:
            a["what"] = "outside"
            a["far"] = rng.choice([0.05, 0.2, 1.0])
        elif r < 0.85:
            a["what"] = "short"
        else:
            a["what"] = "unknown"
            a["f"] = rng.choice([1.2, 1.6, 3.0])
        if rng.random() < 0.25:
            a["act"] = rng.choice([["raise", "SolverError"], ["raise", "KeyboardInterrupt"], ["raise", "MemoryError"], ["iter", 2], ["iter", 5], ["status", "NumericalError"], ["status", "MaxIterations"]])
        asks.append(a)
    if rng.random() < 0.5:
        asks.append(dict(asks[0]))
        asks[-1].pop("act", None)
    asks[rng.randrange(len(asks))].update({"what": "inside", "n": 12, "shrink": 0.9, "edge": rng.random() < 0.1})
    return {
        "kind": kind,
        "shapes": shapes,
        "method": rng.choice(METHODS[kind]),
        "rep": rng.choice(["J", "J", "vec", "varJ", "varvec"]),
        "eps": rng.choice([0, 0, "half"]),
        "d": 3 if rng.random() < (0.02 if tier == "quick" else 0.06) and kind != "body" else 2,
        "asks": asks,
        # the same problem also holds the constraints for another set of parameters (which do fit)
        "pair": {"what": "inside", "seed": rng.randrange(1 << 30), "m": geom.gen_ext(rng, 0.2, 5), "n": 12, "shrink": 0.9} if rng.random() < 0.2 else None,
        "short": rng.choice([0.2, 0.7]),
    }


def slim(rng, s):
    """Make a shape thin or small."""
    f = rng.choice([0.02, 0.05])
    if s["k"] in ("cyl", "cap"):
        s["r"] = f * rng.uniform(0.5, 1)
        if rng.random() < 0.3:
            s["l"] = f
    elif s["k"] == "box":
        s["he"] = [f if rng.random() < 0.5 else h for h in s["he"]]
    elif s["k"] == "ell":
        s["he"] = [f if rng.random() < 0.5 and h else h for h in s["he"]]


# -------------------------------------------------------------------- parameters
def params_of(ask, models, eps, short=0.2):
    """(J, truth): truth True/False/None"""
    g = np.random.default_rng(ask["seed"])
    what = ask["what"]
    if what in ("inside", "short"):
        n = ask.get("n", 12)
        P = []
        for _ in range(n):
            m = models[g.integers(len(models))]
            x = m.support_point(g.normal(size=m.dim)) if ask.get("edge") else m.sample(g, 1)[0]
            P.append(m.center() + ask.get("shrink", 0.9) * (x - m.center()))
        P = np.array(P)
        w = g.dirichlet(np.ones(n)) * ask["m"]
        J = moments(w, P)
        if what == "short":
            if eps == 0:
                # not a pseudo-inertia at all: one second moment is negative
                v = np.linalg.eigh(J)[1][:, -1]
                J = J - 1.3 * (v @ J @ v) * np.outer(v, v)
                # keep the mass positive so that only the margin is at stake
                return J, False
            J = J * (short * eps / max(np.linalg.eigvalsh(J)[0], 1e-12)) if np.linalg.eigvalsh(J)[0] > short * eps else J
            return J, False
        if eps > 0 and np.linalg.eigvalsh(J)[0] < 1.2 * eps:
            f = np.linalg.eigvalsh(J)[0]
            return J, (False if f < 0.7 * eps else None)
        return J, True
    if what == "outside":
        d = g.normal(size=3)
        d /= np.linalg.norm(d)
        top = max(m.support(d) for m in models)
        mid = models[0].center()
        size = max(m.scale for m in models)
        c = mid + d * (top - d @ mid + ask["far"] * size)
        # a spread around a centre of mass that is outside
        P = c + g.normal(size=(20, 3)) * 0.3 * size
        P = P - P.mean(axis=0) + c
        return moments(np.full(20, ask["m"] / 20), P), False
    # the right centre of mass, but possibly too much spread
    P = np.vstack([m.sample(g, 10) for m in models])
    w = g.dirichlet(np.ones(len(P))) * ask["m"]
    c = w @ P / w.sum()
    return moments(w, c + ask["f"] * (P - c)), None


def moments(w, P):
    Q = np.hstack([P, np.ones((len(P), 1))])
    J = (Q.T * w) @ Q
    return 0.5 * (J + J.T)


def vec_of(J):
    I = np.trace(J[:3, :3]) * np.eye(3) - J[:3, :3]
    return np.concatenate([[J[3, 3]], J[:3, 3], I[np.triu_indices(3)]])


# ----------------------------------------------------------------------- problems
class Asker:
    def __init__(self, plan, eps, objs, pair=None):
        meth, rep = plan["method"], plan["rep"]
        self.rep = rep
        extra = []
        if rep == "J":
            self.par = cp.Parameter((4, 4), symmetric=True)
            x = self.par
        elif rep == "vec":
            self.par = cp.Parameter(10)
            x = self.par
        elif rep == "varJ":
            self.par = cp.Parameter((4, 4), symmetric=True)
            x = cp.Variable((4, 4), symmetric=True)
            extra = [x == self.par]
        else:
            self.par = cp.Parameter(10)
            x = cp.Variable(10)
            extra = [x == self.par]
        d = plan["d"]
        body = rg.RigidBody(objs) if plan["kind"] == "body" else None

        def constrain(x):
            if body:
                return body.moment_sdp_constraints(x, eps=eps, d=d)
            o = objs[0]
            if meth == "sdp":
                return o.moment_sdp_constraints(x, eps=eps, d=d)
            if meth == "sdp_problem":
                return o.moment_sdp_feasibility_problem(x, eps=eps, d=d).constraints
            if meth == "vertex":
                return o.moment_vertex_constraints(x, eps=eps)
            if meth == "custom":
                return o.moment_custom_vertex_constraints(x, eps=eps)
            return o.moment_constraints(x, eps=eps)

        cons = list(constrain(x))
        if pair is not None:
            y = cp.Variable((4, 4), symmetric=True)
            cons += constrain(y) + [y == pair]
        self.problem = cp.Problem(cp.Minimize(0), list(cons) + extra)

    def ask(self, J, solver):
        self.par.value = J if self.rep.endswith("J") else vec_of(J)
        self.problem.solve(solver=solver)
        return self.problem.status


def verdict(status):
    return {"optimal": True, "infeasible": False}.get(status)


def margin_eps(plan, models):
    if not plan["eps"]:
        return 0.0
    a = [a for a in plan["asks"] if a["what"] == "inside" and a["n"] >= 6]
    if not a:
        return 0.0
    J, _ = params_of(a[0], models, 0.0)
    e = np.linalg.eigvalsh(J)[0]
    return 0.5 * e if e > 1e-4 else 0.0


def run(plan, ctx):
    warnings.simplefilter("ignore")
    models = [geom.M(s) for s in plan["shapes"]]
    eps = margin_eps(plan, models)
    pair = None
    if plan.get("pair"):
        pair, fits = params_of(plan["pair"], models, eps)
        if fits is not True:
            pair = None

    def fresh(req):
        warnings.simplefilter("ignore")
        a = Asker(plan, eps, [geom.build(s) for s in plan["shapes"]], pair)
        try:
            return a.ask(np.array(req), simsolver.SimSolver())
        except cp.error.SolverError:
            return "gave-up"

    pris = Pristine(fresh)
    objs = [geom.build(s) for s in plan["shapes"]]
    asker = Asker(plan, eps, objs, pair)
    if pair is not None:
        ctx.probe("paired")
    sv = simsolver.SimSolver([a.get("act", "ok") for a in plan["asks"]])
    for j, ask in enumerate(plan["asks"]):
        J, truth = params_of(ask, models, eps, plan.get("short", 0.2))
        what = f"{plan['kind']}.{plan['method']} ({plan['rep']}, eps={eps:.3g}, d={plan['d']}) question {j}: {ask['what']}"
        before = sv.calls
        try:
            st = asker.ask(J, sv)
        except BaseException as e:
            if not (is_simulated(e) or isinstance(e, cp.error.SolverError)):
                raise
            st = "gave-up"
        # constraints without variables of their own are decided without a solver
        act, final = sv.done[-1] if sv.calls > before else ("ok", "no solver call")
        ctx.evals += 1
        ctx.log(what, act, final, st)
        if act != "ok":
            ctx.fault(f"solver:{act[0]}")
            continue
        v = verdict(st)
        if v is None:
            ctx.probe("no-verdict")
            continue
        ctx.probe(f"verdict:{ask['what']}")
        if truth is True and v is False:
            raise Violation("excluded", f"{what}: the constraints exclude the parameters of masses inside ({ask['n']} points, total {ask['m']:.3g}): {vec_of(J)}")
        if truth is False and v is True:
            raise Violation("admitted", f"{what}: the constraints admit parameters {'with the centre of mass outside' if ask['what'] == 'outside' else 'below the margin'}: {vec_of(J)}")
        if truth is None or ask["seed"] % 4 == 0:
            ref = verdict(pris(J.tolist()))
            if ref is not None and ref != v:
                raise Violation("history-dependent", f"{what}: {v} after {j} other questions, {ref} when asked alone")
            ctx.probe("compared-with-fresh")
    pris.close()


def nontrivial(plan, res):
    return bool(res["faults"]) or sum(n for k, n in res["probes"].items() if k.startswith("verdict")) >= 3


def shrink(plan):
    yield from core.shrink_lists(plan, ["asks"])
    if len(plan["shapes"]) > 1:
        for k in range(len(plan["shapes"])):
            yield dict(plan, shapes=plan["shapes"][:k] + plan["shapes"][k + 1 :])
    for k, s in enumerate(plan["shapes"]):
        for key in ("via", "R", "c"):
            if s.get(key):
                ss = [dict(x) for x in plan["shapes"]]
                if key == "via":
                    ss[k].pop("via")
                else:
                    ss[k][key] = None
                yield dict(plan, shapes=ss)
    if plan.get("pair"):
        yield dict(plan, pair=None)
    if plan["rep"] != "J":
        yield dict(plan, rep="J")
    for j, a in enumerate(plan["asks"]):
        if a.get("act"):
            x = [dict(b) for b in plan["asks"]]
            x[j].pop("act")
            yield dict(plan, asks=x)
