"""C08: solver-backed geometry never passes off an uncertified answer."""
import threading
import warnings

import numpy as np
import cvxpy as cp

import core
import geom
import oracle
import solver as simsolver
from core import Violation, is_simulated
from simlib import run_tasks
from world import rg

from rigeo.shape.ellipsoid import mie_inequality_form

CONFIG = {
    "runs": {"quick": 900, "thorough": 40000},
    "rule": "A run is a sequence of 1-6 solver-backed queries (distance, bounding and inscribed ellipsoids, containment) on "
    "1-2 threads; every query has a simulated solver of its own that works, raises, stops early, or reports a failure "
    "status.  Answers are certified by separating directions, Khachiyan and John conditions and ascent on the ellipsoids, "
    "without a conic solver. Non-trivial: at least one injected solver fault or two queries.",
    "real": ["rigeo.closest", "rigeo.shape", "cvxpy", "Clarabel numerics", "SCS (sometimes)"],
    "stub": ["solver outcome (iteration limits, statuses, exceptions)", "thread scheduler"],
    "assumptions": ["answers are certified to 1e-4 of the scene's size (5e-3 for almost-solved problems)",
                    "containment is not judged within 3% of touching"],
}

KINDS = ["closest"] * 5 + ["mbe_poly", "mbe_points", "mbe_cap", "mie_poly", "mie_ineq", "mbe_ells", "contains", "contains", "body_mbes"]
BADSTATUS = ["MaxIterations", "MaxTime", "NumericalError", "InsufficientProgress", "PrimalInfeasible", "DualInfeasible",
             "AlmostPrimalInfeasible", "AlmostDualInfeasible"]


def gen_query(rng):
    k = rng.choice(KINDS)
    q = {"k": k}
    if k == "closest":
        sh = []
        for _ in range(2):
            s = geom.gen_shape(rng, degenerate=0.1)
            geom.add_via(rng, s, 0.3)
            sh.append(s)
        r = rng.random()
        if r < 0.15:
            # put the second next to the first
            m = geom.M(sh[0])
            t = [x + rng.uniform(-2, 2) for x in m.center()]
            sh[1].setdefault("via", []).append({"R": None, "t": (np.array(t) - geom.M(sh[1]).center()).tolist()})
        elif r < 0.22:
            sh[1] = dict(sh[0])
            if r < 0.19:
                sh[1] = dict(sh[0], via=sh[0].get("via", []) + [{"R": None, "t": geom.gen_center(rng) or [0.1, 0, 0]}])
        elif r < 0.37:
            # almost touching: the distance is known
            m, n = geom.M(sh[0]), geom.M(sh[1])
            d = np.array([rng.gauss(0, 1) for _ in range(3)])
            d /= np.linalg.norm(d)
            q["gap"] = 10 ** rng.uniform(-3, -1)
            t = m.support_point(d) + q["gap"] * d - n.support_point(-d)
            sh[1].setdefault("via", []).append({"R": None, "t": t.tolist()})
        q["s"] = sh
    elif k in ("mbe_poly", "mie_poly", "mie_ineq"):
        q["s"] = geom.add_via(rng, geom.gen_poly(rng, flat=0.2 if k == "mbe_poly" else 0.15 if k == "mie_poly" else 0.0), 0.3)
        q["sphere"] = rng.random() < 0.3
    elif k == "mbe_points":
        d = rng.choice([2, 3, 3, 3])
        n = rng.randint(d + 2, 14)
        V = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(n)]) * np.array([geom.gen_ext(rng, 0.3, 2) for _ in range(d)])
        if d == 3 and rng.random() < 0.25:
            V[:, 2] = 0
            V = V @ geom.rot3(rng).T
        V = V + np.array(geom.gen_center(rng, d) or [0] * d)
        q["V"] = V.tolist()
        q["sphere"] = rng.random() < 0.3
    elif k == "mbe_cap":
        q["s"] = geom.add_via(rng, geom.gen_cap(rng), 0.3)
        q["sphere"] = rng.random() < 0.3
    elif k == "mbe_ells":
        d = rng.choice([2, 3, 3])
        q["s"] = [geom.add_via(rng, geom.gen_ell(rng, dims=(d,)), 0.2) for _ in range(rng.choice([1, 2, 2, 3]))]
        q["sphere"] = rng.random() < 0.25
    elif k == "contains":
        d = rng.choice([2, 3, 3])
        a = geom.gen_ell(rng, dims=(d,))
        if rng.random() < 0.3:
            b = geom.gen_ell(rng, dims=(d,))
        else:
            f = rng.choice([0.3, 0.6, 0.85, 1.2, 2.0, 0.994, 1.006, 0.98, 1.02])
            b = {"k": "ell", "he": [h * f * rng.choice([1, 1, 0.8]) for h in a["he"]], "R": a["R"], "c": a["c"]}
            if rng.random() < 0.7:
                m = geom.M(a)
                off = np.array([rng.gauss(0, 1) for _ in range(d)])
                off *= rng.uniform(0, 1) / np.linalg.norm(off)
                b["c"] = (m.c + m.R @ (off * m.he * max(0.05, 1 - f))).tolist()
            if rng.random() < 0.3:
                b["R"] = geom.gen_rot(rng, d)
        q["s"] = [a, b]
    else:
        q["s"] = [geom.gen_shape(rng, ("box", "ell", "cyl", "cap", "poly")) for _ in range(rng.choice([1, 2]))]
        q["sphere"] = rng.random() < 0.3
    r = rng.random()
    if r < 0.06:
        q["solver"] = rng.choice(["CLARABEL", "CLARABEL", "SCS"])
        q["script"] = []
    else:
        q["solver"] = "SIM"
        n = 1 if k != "body_mbes" else rng.choice([1, 2])
        q["script"] = []
        for _ in range(n):
            r = rng.random()
            if r < 0.45:
                q["script"].append("ok")
            elif r < 0.6:
                q["script"].append(["raise", rng.choice(["SolverError", "SolverError", "MemoryError", "OSError", "KeyboardInterrupt"])])
            elif r < 0.78:
                q["script"].append(["status", rng.choice(BADSTATUS)])
            elif r < 0.93:
                q["script"].append(["iter", rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])])
            else:
                q["script"].append(["almost", rng.choice([1e-8, 1e-6])])
        if k == "contains":
            # an honest-looking verdict of infeasibility cannot be told from a real one
            q["script"] = [a if a == "ok" or a[0] != "status" or not a[1].endswith("Infeasible") or a[1].startswith("Almost") else ["status", "NumericalError"] for a in q["script"]]
    return q


def gen(rng, tier, i):
    nth = rng.choice([1, 1, 1, 2])
    qs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        q = gen_query(rng)
        q["t"] = rng.randrange(nth)
        qs.append(q)
        if rng.random() < 0.4:  # the same question again, with another outcome
            q2 = dict(q, script=["ok"], solver="SIM", t=rng.randrange(nth))
            qs.append(q2)
    s = core.gen_sched(rng, nth)
    s["faults"] = []
    return {"queries": qs, "nth": nth, "sched": s}


# ------------------------------------------------------------------ answering
def make(q):
    """Arguments of a query (built before the clock starts)."""
    k = q["k"]
    if k == "closest":
        a, b = (geom.build(s) for s in q["s"])
        return lambda sv: rg.closest_points(a, b, solver=sv)
    if k in ("mbe_poly", "mie_poly", "mbe_cap"):
        o = geom.build(q["s"])
        f = o.mie if k == "mie_poly" else o.mbe
        return lambda sv: f(sphere=q["sphere"], solver=sv)
    if k == "mie_ineq":
        A, b = halfspaces(geom.M(q["s"]))
        return lambda sv: mie_inequality_form(A, b, sphere=q["sphere"], solver=sv)
    if k == "mbe_points":
        V = np.array(q["V"])
        return lambda sv: rg.mbe_of_points(V, sphere=q["sphere"], solver=sv)
    if k == "mbe_ells":
        es = [geom.build(s) for s in q["s"]]
        return lambda sv: rg.mbe_of_ellipsoids(es, sphere=q["sphere"], solver=sv)
    if k == "contains":
        a, b = (geom.build(s) for s in q["s"])
        return lambda sv: a.contains_ellipsoid(b, solver=sv)
    if k == "body_mbes":
        body = rg.RigidBody([geom.build(s) for s in q["s"]], rg.InertialParameters(mass=1.0, com=np.zeros(3), H=np.eye(3)))
        return lambda sv: body.mbes(sphere=q["sphere"], solver=sv)
    raise ValueError(k)


def halfspaces(m):
    o, B, eq, N = m.hull()
    A = eq[:, :-1] @ B.T
    return A, -eq[:, -1] + A @ o


def ell_of(e, d):
    """(centre, factor with the ellipsoid = centre + factor @ ball)"""
    c = np.asarray(e.center, dtype=float)
    he = np.asarray(e.half_extents, dtype=float)
    R = np.asarray(e.rotation, dtype=float)
    if c.shape != (d,) or he.shape != (d,) or R.shape != (d, d):
        return None
    if not (np.isfinite(c).all() and np.isfinite(he).all() and np.isfinite(R).all()):
        return None
    if np.max(np.abs(R.T @ R - np.eye(d))) > 1e-6:
        return None
    return c, R @ np.diag(he), he, R


def check_mbe_points(e, P, sphere, tol):
    n, d = P.shape
    E = ell_of(e, d)
    if E is None:
        return f"not an ellipsoid: {e!r}"
    c, B, he, R = E
    o, F = oracle.affine_frame(P)
    r = F.shape[1]
    sc = 1.0 + float(np.max(np.abs(P - o)))
    # the ellipsoid's axes that matter span the points' flat
    full = he > 1e-6 * sc
    q = (P - c) @ R
    if (~full).any() and np.max(np.abs(q[:, ~full])) > tol * sc:
        return "points stick out of a degenerate ellipsoid"
    g = np.sqrt(np.sum((q[:, full] / he[full]) ** 2, axis=1))
    if g.max() > 1 + tol:
        return f"a point sticks out ({g.max():.6f})"
    if sphere:
        x, rad = oracle.meb((P - o) @ F)
        if he[full].max() > rad * (1 + tol) + 1e-9:
            return f"radius {he.max()} but {rad} suffices"
        if full.any() and np.ptp(he[full]) > tol * rad:
            return f"not a sphere: {he}"
        return None
    if full.sum() > r:
        return f"half extents {he} for points of rank {r}"
    X = (P - o) @ F
    if r == 1:
        want = np.log(np.ptp(X) / 2)
    else:
        _, S = oracle.mvee(X, tol=1e-6)
        want = -0.5 * np.linalg.slogdet(S)[1]
    got = np.sum(np.log(he[full]))
    if full.sum() != r or got > want + 10 * tol:
        return f"not minimal: log volume {got} instead of {want}"
    return None


def check_mbe_ells(e, ells, sphere, tol, g):
    d = len(ells[0][0])
    E = ell_of(e, d)
    if E is None:
        return f"not an ellipsoid: {e!r}"
    c, B, he, R = E
    if he.min() <= 0:
        return f"degenerate {he}"
    S = R @ np.diag(he**-2.0) @ R.T
    for cb, Bb in ells:
        v, x = oracle.max_quad(c, S, cb, Bb, g)
        if np.sqrt(v) > 1 + tol:
            return f"sticks out at {x} ({np.sqrt(v):.6f})"
    got = np.sum(np.log(he))
    if sphere:
        if np.ptp(he) > tol * he.max():
            return f"not a sphere: {he}"
        if all(np.ptp(np.linalg.svd(Bb)[1]) < 1e-12 for _, Bb in ells):
            _, rad = oracle.meb_of_balls([(cb, np.linalg.norm(Bb, 2)) for cb, Bb in ells])
        else:
            G = g.normal(size=(400, d))
            G /= np.linalg.norm(G, axis=1)[:, None]
            P = np.vstack([cb + G @ Bb.T for cb, Bb in ells])

            def f(x):
                return float(np.max(np.linalg.norm(P - x, axis=1)))

            import scipy.optimize

            rr = scipy.optimize.minimize(f, c, method="Nelder-Mead", options={"xatol": 1e-7, "fatol": 1e-8, "maxiter": 2000})
            rad = rr.fun * 1.06  # sampled: a lower bound up to the mesh
        if he.max() > rad * (1 + 2 * tol):
            return f"radius {he.max()} but {rad} suffices"
        return None
    lo, hi = oracle.mvee_of_ells(ells, g)
    if got > hi + 10 * tol:
        return f"not minimal: log volume {got} instead of [{lo}, {hi}]"
    if got < lo - 10 * tol:
        return f"too small: log volume {got} instead of [{lo}, {hi}]"
    return None


def check_mie(e, m, sphere, tol):
    d = m.dim
    E = ell_of(e, d)
    if E is None:
        return f"not an ellipsoid: {e!r}"
    c, B, he, R = E
    o, F, eq, N = m.hull()
    r = F.shape[1]
    sc = m.scale
    if N.shape[1]:
        # lies in the flat of the polyhedron
        if max(np.max(np.abs((c - o) @ N)), np.max(np.abs(B.T @ N))) > tol * sc:
            return "leaves the polyhedron's plane"
    A, b = eq[:, :-1], -eq[:, -1]
    cf = (c - o) @ F
    Bf = F.T @ B  # (r, d)
    U, s, Vt = np.linalg.svd(Bf, full_matrices=False)
    Bq = U @ np.diag(s)  # same image
    if s.min() <= 0:
        return f"degenerate: {he}"
    nn = np.linalg.norm(A @ Bq, axis=1)
    over = np.max((A @ cf + nn - b))
    if over > tol * sc:
        return f"sticks out by {over:.3g}"
    if sphere:
        x, rad = oracle.chebyshev(A, b)
        if np.ptp(s) > tol * s.max():
            return f"not a sphere: {he}"
        if s.min() < rad - 2 * tol * sc:
            return f"radius {s.min()} but {rad} fits"
        return None
    over, res = oracle.john_residual(cf, Bq, A, b, slack=max(5e-3, 10 * tol))
    if res > max(0.03, 20 * tol):
        return f"not maximal: half extents {he}, optimality residual {res:.3g}"
    return None


def check(q, ans, tol, g):
    """Why the answer is wrong (None: certified; False: cannot tell)."""
    k = q["k"]
    if k == "closest":
        a, b = geom.M(q["s"][0]), geom.M(q["s"][1])
        p1, p2 = np.asarray(ans.p1, dtype=float), np.asarray(ans.p2, dtype=float)
        dist = float(ans.dist)
        if p1.shape != (3,) or p2.shape != (3,) or not np.isfinite(p1).all() or not np.isfinite(p2).all() or not np.isfinite(dist):
            return f"not points: {ans!r}"
        sc = a.scale + b.scale
        # a box or ball measures violations at least as large as the distance to it
        va, vb = float(a.viol(p1)[0]), float(b.viol(p2)[0])
        if va > tol * sc or vb > tol * sc:
            return f"closest points are outside the shapes by {va:.3g}, {vb:.3g}"
        if abs(dist - np.linalg.norm(p1 - p2)) > 0.01 * tol * sc:
            return f"distance {dist} but the points are {np.linalg.norm(p1 - p2)} apart"
        lo, hi = (q["gap"], q["gap"]) if "gap" in q else oracle.distance_bounds(a, b)
        if dist > hi + tol * sc:
            return f"distance {dist} but points {hi} apart exist"
        if dist < lo - tol * sc:
            return f"distance {dist} but the shapes are separated by {lo}"
        return None
    if k in ("mbe_poly", "mbe_points"):
        P = geom.M(q["s"]).V if k == "mbe_poly" else np.array(q["V"])
        return check_mbe_points(ans, P, q["sphere"], tol)
    if k in ("mie_poly", "mie_ineq"):
        return check_mie(ans, geom.M(q["s"]), q["sphere"], tol)
    if k == "mbe_cap":
        m = geom.M(q["s"])
        return check_mbe_ells(ans, [(x, m.r * np.eye(3)) for x in m.ends()], q["sphere"], tol, g)
    if k == "mbe_ells":
        return check_mbe_ells(ans, [(m.c, m.R @ np.diag(m.he)) for m in map(geom.M, q["s"])], q["sphere"], tol, g)
    if k == "contains":
        a, b = map(geom.M, q["s"])
        v = np.sqrt(oracle.max_quad(a.c, a.R @ np.diag(a.he**-2.0) @ a.R.T, b.c, b.R @ np.diag(b.he), g)[0])
        if abs(v - 1) < 0.005:
            return False
        if bool(ans) != (v < 1):
            return f"containment reported {bool(ans)} but the furthest point is at {v:.4f} of the boundary"
        return None
    if k == "body_mbes":
        if len(ans.shapes) != len(q["s"]):
            return f"{len(ans.shapes)} bounding shapes for {len(q['s'])} shapes"
        if not np.allclose(ans.params.J, np.eye(4)):
            return "the body's parameters changed"
        for s, e in zip(q["s"], ans.shapes):
            m = geom.M(s)
            if ell_of(e, 3) is None:
                return f"not an ellipsoid: {e!r}"
            if q["sphere"] and np.ptp(e.half_extents) > tol * np.max(e.half_extents):
                return f"not a sphere: {e!r}"
            # the smallest one is known
            if m.k == "box":
                want = np.full(3, np.linalg.norm(m.he)) if q["sphere"] else np.sqrt(3) * m.he
            elif m.k == "ell":
                want = np.full(3, m.he.max()) if q["sphere"] else m.he
            elif m.k == "cyl":
                want = np.full(3, np.hypot(m.r, m.l / 2)) if q["sphere"] else np.array([m.r * np.sqrt(1.5), m.r * np.sqrt(1.5), m.l * np.sqrt(0.75)])
            elif m.k == "cap" and q["sphere"]:
                want = np.full(3, m.r + m.l / 2)
            else:
                want = None
            if want is not None and np.prod(e.half_extents / want) > (1 + tol) ** 3:
                return f"{e!r} around a {m.k}, but half extents {want} suffice"
            P = m.V if m.k == "poly" else np.array([oracle.support_point(m, u) for u in g.normal(size=(200, 3))])
            gg = np.sqrt(np.sum(((P - e.center) @ e.rotation / e.half_extents) ** 2, axis=1))
            if gg.max() > 1 + tol:
                return f"bounding ellipsoid of {m.k} does not contain it ({gg.max():.5f})"
        return None
    raise ValueError(k)


# ------------------------------------------------------------------------ run
current = threading.local()


class Owned(simsolver.SimSolver):
    """A simulated solver that belongs to one query."""

    owner = None
    strangers = None

    def solve_via_data(self, *a, **k):
        if getattr(current, "q", None) != self.owner:
            self.strangers.append((self.owner, getattr(current, "q", None)))
        return super().solve_via_data(*a, **k)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    qs = plan["queries"]
    fns = [make(q) for q in qs]
    simsolver.watch_others()
    outcome = [None] * len(qs)
    sims = []
    strangers = []
    for j, q in enumerate(qs):
        s = Owned(q["script"], name=f"SIM{j}") if q["solver"] == "SIM" else None
        if s is not None:
            s.owner = j
            s.strangers = strangers
        sims.append(s)

    def task(t):
        def body():
            for j, q in enumerate(qs):
                if q["t"] != t:
                    continue
                current.q = j
                try:
                    outcome[j] = ("value", fns[j](sims[j] if sims[j] is not None else q["solver"]))
                except BaseException as e:
                    if isinstance(e, (core.SimStuck,)):
                        raise
                    outcome[j] = ("raised", type(e).__name__, str(e)[:200], is_simulated(e))
                    if is_simulated(e):
                        core.retrace()
                finally:
                    current.q = None

        return body

    if plan["nth"] == 1:
        task(0)()
    else:
        run_tasks([task(t) for t in range(plan["nth"])], plan["sched"], ctx)

    if strangers:
        o, by = strangers[0]
        raise Violation("wrong-solver", f"query {by} ({qs[by]['k'] if by is not None else None}) used the solver selected for query {o}")
    allowed = {"clarabel" if q["solver"] == "CLARABEL" else "scs" for q in qs if q["solver"] != "SIM"}
    extra = sorted(k for k in simsolver.others if k.lower() not in allowed)
    if extra:
        raise Violation("wrong-solver", f"solver {extra[0]} was used although the caller selected another")

    g = np.random.default_rng(5)
    for j, q in enumerate(qs):
        sim = sims[j]
        what = f"query {j} ({q['k']})"
        ctx.evals += 1
        statuses = [st for _, st in sim.done] if sim else []
        faulted = bool(sim and any(a != "ok" for a, _ in sim.done))
        if sim:
            for a, st in sim.done:
                if a != "ok":
                    ctx.fault(f"solver:{a[0]}" + (f":{a[1]}" if a[0] in ("raise", "status") else ""))
        ctx.log(what, q["solver"], q["script"], statuses, outcome[j][0], outcome[j][1] if outcome[j][0] == "raised" else "")
        if outcome[j][0] == "raised":
            if faulted:
                ctx.probe("fault-raised")
                continue
            if sim and any(st != "Solved" for st in statuses) and not (q["k"] == "contains" and all(st in ("Solved", "PrimalInfeasible") for st in statuses)):
                ctx.probe("solver-gave-up")
                continue
            if q["solver"] == "SCS":
                continue
            raise Violation("raised", f"{what}: {outcome[j][1]}: {outcome[j][2]} although nothing failed: {str(q)[:300]}")
        ans = outcome[j][1]
        good = {"Solved", "AlmostSolved"}
        if q["k"] == "contains":
            good |= {"PrimalInfeasible"}
            if statuses and statuses[-1] == "AlmostPrimalInfeasible":
                good |= {"AlmostPrimalInfeasible"}
        last = statuses[-1] if statuses else "Solved"
        if q["k"] == "body_mbes" and any(st not in good for st in statuses):
            # one call per shape unless it was repeated
            bad = [k for k, st in enumerate(statuses) if st not in good and not any(s2 in good for s2 in statuses[k + 1 :])]
            last = statuses[bad[0]] if bad else last
        if last not in good:
            raise Violation("uncertified-answer", f"{what}: an answer was returned although the solver reported {last}: {str(ans)[:200]}")
        if ans is None:
            raise Violation("wrong-answer", f"{what}: returned None")
        tol = 1e-4
        if q["solver"] == "SCS":
            # a first-order method on far-off-centre data: only its exclusive use is checked
            ctx.probe("scs-not-judged")
            continue
        if any(st.startswith("Almost") for st in statuses):
            tol = 5e-3
        why = check(q, ans, tol, g)
        if why is False:
            ctx.probe("undecided-margin")
        elif why is not None:
            raise Violation("wrong-answer", f"{what}, solver {q['solver']} {statuses}: {why}")
        else:
            ctx.probe(f"certified:{q['k']}")


def nontrivial(plan, res):
    return bool(res["faults"]) or len(plan["queries"]) > 1


def shrink(plan):
    yield from core.shrink_lists(plan, ["queries"])
    if plan["nth"] > 1:
        yield dict(plan, nth=1, queries=[dict(q, t=0) for q in plan["queries"]])
    for j, q in enumerate(plan["queries"]):
        if q["script"] and q["script"] != ["ok"]:
            qs = list(plan["queries"])
            qs[j] = dict(q, script=["ok"])
            yield dict(plan, queries=qs)
        s = q.get("s")
        sub = [dict(x) for x in s] if isinstance(s, list) else ([dict(s)] if s else [])
        for i, x in enumerate(sub):
            if x.get("via"):
                y = [dict(z) for z in sub]
                y[i]["via"] = x["via"][:-1]
                qs = list(plan["queries"])
                qs[j] = dict(q, s=y if isinstance(s, list) else y[0])
                qs[j].pop("gap", None)
                yield dict(plan, queries=qs)
