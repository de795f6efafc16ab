"""C12: a body and its mass stay in step through any session."""
import copy
import pickle

import numpy as np
import cvxpy as cp

import core
import geom
import ops
import solver as simsolver
from core import Violation, is_simulated
from material import Material
from simlib import run_tasks
from world import rg

CONFIG = {
    "runs": {"quick": 700, "thorough": 40000},
    "rule": "A run is one to three concurrent sessions over shared bodies: assembling shapes and masses, moving (whole or piecewise), "
    "undoing moves, merging, converting parameters, bounding, copying, pickling; steps are interrupted at traced lines and repeated, "
    "solvers fail and are retried, sessions are rolled back to checkpoints. Every intermediate body is compared with point masses and "
    "ideal shapes carried through the same motions. Non-trivial: at least three moves or merges.",
    "real": ["rigeo.RigidBody", "rigeo.InertialParameters", "all shapes", "Clarabel"],
    "stub": ["thread scheduler", "solver failures"],
    "assumptions": ["moments are compared to 1e-8 of the largest moment seen, points to 1e-5 of the shape's scale"],
}


# ----------------------------------------------------------------- generation
def gen_body(rng):
    kinds = ("box", "ell", "cyl", "cap", "poly", "simplex")
    shapes = [geom.add_via(rng, geom.gen_shape(rng, kinds, degenerate=0.15), 0.4) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.15:
        shapes.append(geom.almost(rng, rng.choice(shapes)))
    how = rng.choice(["points", "points", "dens", "dens", "none"])
    b = {"s": shapes, "how": how, "bare": len(shapes) == 1 and rng.random() < 0.5}
    if how == "points":
        b["p"] = ops.gen_params(rng)
    if how == "dens":
        b["d"] = [[rng.choice(["uniform", "vertex", "hollow", "wireframe"]), rng.uniform(0.2, 3)] for _ in shapes]
    if rng.random() < 0.2:
        # very light or heavy
        f = 10 ** rng.uniform(-9, 6)
        if how == "points" and b["p"]["how"] != "zero":
            b["p"]["m"] = [m * f for m in b["p"]["m"]]
        if how == "dens":
            b["d"] = [[k, m * f] for k, m in b["d"]]
    return b


def gen(rng, tier, i):
    bodies = [gen_body(rng) for _ in range(rng.choice([1, 2, 3]))]
    nth = rng.choice([1, 1, 1, 2, 3])
    sessions = []
    for _ in range(nth):
        steps = []
        n = len(bodies)  # slots; every step appends one
        for _ in range(rng.choice([3, 6, 12, 20])):
            r = rng.random()
            j = rng.randrange(n) if rng.random() < 0.5 else n - 1
            if r < 0.36:
                T = geom.gen_T(rng, far=rng.random() < 0.1, small=0.2)
                # the same (often tiny) motion may be made many times over
                rep = rng.choice([1, 6, 25]) if i % 6 == 1 and max([abs(x) for x in T.get("t") or [0]]) < 5 else 1
                steps.append(["T", j, T, rng.choice(["whole", "whole", "pieces", "list"]), rep])
            elif r < 0.44:
                steps.append(["undo", j, geom.gen_T(rng)])
            elif r < 0.58:
                steps.append([rng.choice(["add", "sum", "radd"]), j, rng.randrange(n)])
            elif r < 0.70:
                steps.append(["conv", j, rng.choice(["vec", "pim", "com_H", "h_I", "h_H", "com_I", "tfc_I", "tfc_H"])])
            elif r < 0.82:
                steps.append(["copy", j, rng.choice(["copy", "deepcopy", "pickle2", "pickle5", "rebuild"])])
            elif r < 0.86:
                steps.append(["mbes", j, rng.random() < 0.4, rng.choice([None, None, ["raise", "SolverError"], ["raise", "MemoryError"]])])
            elif r < 0.90:
                steps.append(["boxes", j, rng.choice(["aabb", "mbb"])])
            else:
                steps.append(["rollback", max(1, rng.randrange(n))])
                continue
            n += 1
        sessions.append(steps)
    s = core.gen_sched(rng, nth)
    if i % 6 == 1:
        s["gran"] = "line"
    s["faults"] = [
        [rng.randrange(nth), rng.choice([rng.randint(1, 150), rng.randint(1, 2500)]), rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError"])]
        for _ in range(rng.choice([0, 1, 3, 6]))
    ]
    return {"bodies": bodies, "sessions": sessions, "sched": s, "seed": rng.randrange(1 << 30)}


# ---------------------------------------------------------------------- model
def six(m, c, axes, s):
    """Point masses with total m, centre c and central second moments m*s_i along the axes."""
    P, w = [], []
    for k in range(len(s)):
        d = axes[:, k] * np.sqrt(len(s) * s[k])
        P += [c + d, c - d]
        w += [m / (2 * len(s))] * 2
    return w, P


def density(kind, m, g):
    """(actual kind, masses, points) of a mass distribution over an ideal shape."""
    if g.k == "poly":
        n = len(g.V)
        return "vertex", [m / n] * n, list(g.V)
    if g.k == "cap":
        return None, [], []
    if g.k == "box":
        h = g.he
        if kind == "uniform":
            return kind, *six(m, g.c, g.R, h**2 / 3)
        if kind == "vertex":
            import itertools

            V = [g.R @ (np.array(c) * h) + g.c for c in itertools.product([1, -1], repeat=3)]
            return kind, [m / 8] * 8, V
        if kind == "hollow":
            A = np.array([h[1] * h[2], h[0] * h[2], h[0] * h[1]])
            A = A / A.sum()
            return kind, *six(m, g.c, g.R, np.array([A[k] * h[k] ** 2 + (1 - A[k]) * h[k] ** 2 / 3 for k in range(3)]))
        L = h / h.sum()
        return kind, *six(m, g.c, g.R, np.array([L[k] * h[k] ** 2 / 3 + (1 - L[k]) * h[k] ** 2 for k in range(3)]))
    if g.k == "ell":
        return "uniform", *six(m, g.c, g.R, g.he**2 / 5)
    return "uniform", *six(m, g.c, g.R, np.array([g.r**2 / 4, g.r**2 / 4, g.l**2 / 12]))


def build_body(b):
    shapes = [geom.build(s) for s in b["s"]]
    models = [geom.M(s) for s in b["s"]]
    tags = [((k,), g) for k, g in enumerate(models)]
    if b["how"] == "points":
        par, mat = ops.build_params(b["p"]), Material.of(b["p"], tags)
    elif b["how"] == "none":
        par, mat = None, Material(shapes=tags)
    else:
        par, w, P = [], [], []
        for s, g, (kind, m) in zip(shapes, models, b["d"]):
            kind, wi, Pi = density(kind, m, g)
            if kind is None:
                continue
            if kind == "vertex":
                par.append(s.vertex_point_mass_params(m))
            else:
                par.append(getattr(s, kind + "_density_params")(m))
            w += list(wi)
            P += list(Pi)
        par = sum(par) if par else None
        mat = Material(w, P, tags)
    return rg.RigidBody(shapes[0] if b["bare"] else shapes, params=par), mat


def convert(p, how):
    C = rg.InertialParameters
    return {
        "vec": lambda: C.from_vec(p.vec),
        "pim": lambda: C.from_pim(p.J),
        "com_H": lambda: C(mass=p.mass, com=p.com, H=p.H),
        "h_H": lambda: C(mass=p.mass, h=p.h, H=p.H),
        "h_I": lambda: C(mass=p.mass, h=p.h, I=p.I),
        "com_I": lambda: C(mass=p.mass, com=p.com, I=p.I),
        "tfc_I": lambda: C(mass=p.mass, com=p.com, I=p.Ic, translate_from_com=True),
        "tfc_H": lambda: C(mass=p.mass, com=p.com, H=p.Hc, translate_from_com=True),
    }[how]()


class Slot:
    """A body with its material; ``bound`` lists the ideal shapes its shapes must
    contain (for bodies made of bounding shapes) instead of being equal to them."""

    def __init__(self, body, mat, bound=None, how=""):
        self.body, self.mat, self.bound, self.how = body, mat, bound, how

    def moved(self, T):
        b = None
        if self.bound is not None:
            b = [g.copy().move(T) for g in self.bound]
        return self.mat.move(T), b


def Tinv(T):
    R = np.eye(3) if T.get("R") is None else np.array(T["R"])
    t = np.zeros(3) if T.get("t") is None else np.array(T["t"])
    return {"R": R.T.tolist(), "t": (-R.T @ t).tolist()}


def step(st, slots, ctx):
    """(new slot) of one step."""
    s = slots[st[1] % len(slots)]
    b = s.body
    k = st[0]
    if k == "T" or k == "undo":
        T = st[2]
        R, t = geom.arr(T.get("R")), geom.arr(T.get("t"))
        how = st[3] if k == "T" else "whole"
        if how == "pieces":
            r = rg.RigidBody([x.transform(rotation=R, translation=t) for x in b.shapes], params=b.params.transform(rotation=R, translation=t))
        elif how == "list":
            r = b.transform(rotation=None if R is None else R.tolist(), translation=None if t is None else t.tolist())
        else:
            r = b.transform(rotation=R, translation=t)
        if k == "T" and len(st) > 4:
            mat, bound = s.moved(T)
            for _ in range(st[4] - 1):
                r = r.transform(rotation=R, translation=t)
                mat = mat.move(T)
                for x in bound or []:
                    x.move(T)
            return Slot(r, mat, bound, f"T*{st[4]}")
        if k == "undo":
            A = rg.transform_matrix_inv(R, t)
            r = r.transform(rotation=A[:3, :3], translation=A[:3, 3])
            m = s.mat.copy()
            m.scale = s.mat.move(T).scale
            return Slot(r, m, s.bound, "undo")
        return Slot(r, *s.moved(T), how="T")
    if k in ("add", "sum", "radd"):
        o = slots[st[2] % len(slots)]
        r = b + o.body if k == "add" else (sum([b, o.body]) if k == "sum" else 0 + b + o.body)
        if (s.bound is None) != (o.bound is None):
            # a mixed body: check the bounding part by containment only
            bs = s.bound if s.bound is not None else [g for _, g in s.mat.shapes]
            bo = o.bound if o.bound is not None else [g for _, g in o.mat.shapes]
            return Slot(r, s.mat.plus(o.mat), bs + bo, k)
        bound = None if s.bound is None else s.bound + o.bound
        return Slot(r, s.mat.plus(o.mat), bound, k)
    if k == "conv":
        return Slot(rg.RigidBody(b.shapes, params=convert(b.params, st[2])), s.mat, s.bound, k)
    if k == "copy":
        how = st[2]
        if how == "copy":
            r = copy.copy(b)
        elif how == "deepcopy":
            r = copy.deepcopy(b)
        elif how == "rebuild":
            r = rg.RigidBody(tuple(b.shapes), params=b.params)
        else:
            r = pickle.loads(pickle.dumps(b, int(how[-1])))
        return Slot(r, s.mat, s.bound, k)
    if k == "mbes":
        if sum(not isinstance(x, (rg.Box, rg.Cylinder, rg.Ellipsoid)) for x in b.shapes) > 2:
            return s
        script = [st[3]] if st[3] and ctx is not None else []
        if script:
            st[3] = None  # the failure happens once
        sv = simsolver.SimSolver(script)
        try:
            r = b.mbes(sphere=st[2], solver=sv)
        except cp.error.SolverError as e:
            # the real solver may give up for numerical reasons: a clear failure
            if is_simulated(e) or not sv.done or sv.done[-1][1] in ("Solved", "AlmostSolved"):
                raise
            if ctx is not None:
                ctx.probe("solver-gave-up")
            return s
        return Slot(r, s.mat, s.bound if s.bound is not None else [g for _, g in s.mat.shapes], k)
    # boxes around each shape
    new = []
    for x in b.shapes:
        if st[2] == "mbb" and hasattr(x, "mbb"):
            new.append(x.mbb())
        else:
            new.append(x.aabb())
    r = rg.RigidBody(new, params=b.params)
    return Slot(r, s.mat, s.bound if s.bound is not None else [g for _, g in s.mat.shapes], k)


def too_big(slots):
    return len(slots[-1].mat.shapes) > 12


def check_slot(s, what, g, ctx):
    b = s.body
    s.mat.check_params(b.params, what)
    ctx.evals += 1
    if s.bound is None:
        s.mat.check_shapes(b.shapes, what, order=False)
        for shape, model in zip(b.shapes, order(s.mat, b.shapes, what)):
            c = model.center()
            # strictly inside and strictly outside points, well clear of the tolerance
            P = c + (model.sample(g, 6) - c) * 0.999
            e = 1e-4 * model.scale
            keep = model.viol(P) < -1e-6 * model.scale
            got = np.asarray(shape.contains(P))
            if not got[keep].all():
                raise Violation("points-lost", f"{what}: {type(shape).__name__} does not contain a point of its own material, moved along")
            o, d, tt = model.boundary_probe(g, 6)
            Q = o + d * (tt * 1.02 + 3 * e)[:, None]
            out = model.viol(Q) > e
            if np.asarray(shape.contains(Q))[out].any():
                raise Violation("points-gained", f"{what}: {type(shape).__name__} contains a point outside its material")
            if np.atleast_1d(shape.contains(P[0])).all() != got[0]:
                raise Violation("points-lost", f"{what}: {type(shape).__name__} answers differently for one point and for several")
    else:
        if len(b.shapes) != len(s.bound):
            raise Violation("shapes", f"{what}: {len(b.shapes)} shapes instead of {len(s.bound)}")
        for shape, model in zip(b.shapes, s.bound):
            P = model.sample(g, 10)
            if model.k == "poly":
                P = np.vstack([P, model.V])
            c = model.center()
            D = np.vstack([np.eye(3), -np.eye(3), g.normal(size=(4, 3))])
            P = np.vstack([P, [model.support_point(d / np.linalg.norm(d)) for d in D]])
            P = c + (P - c) * (1 - 1e-3)
            if not np.asarray(shape.contains(P, tol=1e-3)).all():
                raise Violation("not-bounded", f"{what}: {type(shape).__name__} around a {model.k} does not contain it")


def order(mat, shapes, what):
    """The ideal shape of every shape, in the body's order (merges keep order)."""
    out = [g for _, g in mat.shapes]
    for sh, g in zip(shapes, out):
        try:
            ok = geom.fit(g, sh) <= 1e-6 * max(1.0, float(np.max(np.abs(g.center()))))
        except AttributeError:
            ok = False
        if not ok:
            break
    else:
        return out
    # another order is allowed: match
    left = list(out)
    res = []
    for sh in shapes:
        best = None
        for g in left:
            try:
                f = geom.fit(g, sh)
            except AttributeError:
                continue
            if best is None or f < best[0]:
                best = (f, g)
        left = [g for g in left if g is not best[1]]
        res.append(best[1])
    return res


def same_bodies(a, b):
    """None, or why two bodies that should be equal do not compare as the same."""
    if not a.params.is_same(b.params) or not b.params.is_same(a.params):
        return "parameters"
    if len(a.shapes) != len(b.shapes):
        return "number of shapes"
    for x, y in zip(a.shapes, b.shapes):
        if not x.is_same(y) or not y.is_same(x):
            return type(x).__name__
    return None


def run(plan, ctx):
    base = [Slot(*build_body(b), how="new") for b in plan["bodies"]]
    before = [ops.canon(s.body) for s in base]
    done = {}

    def task(k):
        steps = copy.deepcopy(plan["sessions"][k])

        def body():
            slots = list(base)
            saved = None
            for st in steps:
                if st[0] == "rollback":
                    # restore the newest checkpoint and carry on from there
                    for _ in range(12):
                        try:
                            fresh = pickle.loads(saved) if saved is not None else []
                            saved2 = pickle.dumps(fresh + [s.body for s in slots[len(fresh) :]])
                            break
                        except BaseException as e:
                            if not is_simulated(e):
                                raise
                            core.retrace()
                            ctx.fault("step-repeated")
                    for q, bd in enumerate(fresh):
                        slots[q] = Slot(bd, slots[q].mat, slots[q].bound, "restored")
                    ctx.fault("rolled-back", len(fresh) > 0)
                    saved = saved2
                    continue
                if too_big(slots):
                    slots.append(slots[0])
                    continue
                for _ in range(12):
                    try:
                        slots.append(step(st, slots, ctx))
                        break
                    except BaseException as e:
                        if not is_simulated(e):
                            raise
                        core.retrace()
                        ctx.fault("step-repeated")
                ctx.log("step", k, st[0], len(slots))
                if st[0] in ("T", "add", "sum", "radd", "undo"):
                    ctx.probe("moves-and-merges")
            done[k] = slots

        return body

    run_tasks([task(k) for k in range(len(plan["sessions"]))], plan["sched"], ctx, budget=20_000_000)

    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    for k in sorted(done):
        slots = done[k]
        for q, s in enumerate(slots):
            if q < len(base) and k > 0:
                continue
            check_slot(s, f"session {k}, slot {q} ({s.how})", g, ctx)
        # the same history without any disturbance
        clean = [Slot(*build_body(b)) for b in plan["bodies"]]
        for st in plan["sessions"][k]:
            if st[0] == "rollback":
                continue
            clean.append(clean[0] if too_big(clean) else step(st, clean, None))
        for q, (x, y) in enumerate(zip(slots, clean)):
            if x.bound is None:
                d = same_bodies(x.body, y.body)
                if d:
                    raise Violation("same-history", f"session {k}, slot {q} ({x.how}): the disturbed and the undisturbed session do not compare as the same: {d}")
        # moved bodies are not the same as before, and moves compose
        q = g.integers(len(slots))
        s = slots[q]
        if True:
            t = np.array([0.5, -0.3, 0.4])
            m = s.body.transform(translation=t)
            for x, y in zip(s.body.shapes, m.shapes):
                if x.is_same(y) or y.is_same(x):
                    raise Violation("is-same", f"session {k}, slot {q}: {type(x).__name__} compares as the same after moving by {t}")
            if s.mat.m.sum() > 1e-3 * max(1.0, s.mat.scale) and s.body.params.is_same(m.params):
                raise Violation("is-same", f"session {k}, slot {q}: parameters compare as the same after moving by {t}")
            import random

            rr = random.Random(int(g.integers(1 << 30)))
            A, B = geom.rot3(rr), geom.rot3(rr)
            a, b = g.normal(size=3), g.normal(size=3)
            two = s.body.transform(rotation=A, translation=a).transform(rotation=B, translation=b)
            X = rg.transform_matrix(B, b) @ rg.transform_matrix(A, a)
            one = s.body.transform(rotation=X[:3, :3], translation=X[:3, 3])
            if s.mat.scale < 1e6:
                d = same_bodies(two, one)
                if d and d != "parameters":
                    raise Violation("compose", f"session {k}, slot {q}: two moves and the composed move do not compare as the same: {d}")
                s.mat.move({"R": X[:3, :3].tolist(), "t": X[:3, 3].tolist()}).check_params(one.params, f"session {k}, slot {q}: composed move")
            back = one.transform(*inv(X))
            d = same_bodies(back, s.body)
            if d and d != "parameters":
                raise Violation("compose", f"session {k}, slot {q}: moving there and back does not compare as the same: {d}")
    for q, (s, c) in enumerate(zip(base, before)):
        d = ops.same(c, ops.canon(s.body), 0)
        if d:
            raise Violation("operand-changed", f"body {q}: {d}")


def inv(X):
    Y = rg.transform_matrix_inv(X[:3, :3], X[:3, 3])
    return Y[:3, :3], Y[:3, 3]


def nontrivial(plan, res):
    return res["probes"].get("moves-and-merges", 0) >= 3


def shrink(plan):
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
        yield from (dict(plan, sched=dict(plan["sched"], faults=plan["sched"]["faults"][:k] + plan["sched"]["faults"][k + 1 :])) for k in range(len(plan["sched"]["faults"])))
    if len(plan["sessions"]) > 1:
        for t in range(len(plan["sessions"])):
            yield dict(plan, sessions=[plan["sessions"][t]], sched=dict({k: v for k, v in plan["sched"].items() if k != "switches"}, faults=[]))
    for t, st in enumerate(plan["sessions"]):
        n = len(st)
        for m in (n // 2, n - 1):
            if 0 <= m < n:
                ss = list(plan["sessions"])
                ss[t] = st[:m]
                yield dict(plan, sessions=ss)
        for k in range(n):
            ss = list(plan["sessions"])
            ss[t] = st[:k] + st[k + 1 :]
            yield dict(plan, sessions=ss)
        for k in range(n):
            if st[k][0] == "T" and len(st[k]) > 4 and st[k][4] > 1:
                ss = list(plan["sessions"])
                ss[t] = st[:k] + [st[k][:4] + [1]] + st[k + 1 :]
                yield dict(plan, sessions=ss)
    for q, b in enumerate(plan["bodies"]):
        if len(b["s"]) > 1:
            bb = [dict(x) for x in plan["bodies"]]
            bb[q]["s"] = b["s"][:1]
            if b.get("d"):
                bb[q]["d"] = b["d"][:1]
            yield dict(plan, bodies=bb)
