"""C13: folding intersections in any order yields the common region."""

import itertools
import pickle
import random

import numpy as np
import scipy.optimize
import scipy.spatial

import core
import geom
import ops
from core import Violation, is_simulated
from simlib import run_tasks
from world import rg

CONFIG = {
    "runs": {"quick": 900, "thorough": 60000},
    "rule": "A run puts 2-9 polyhedra (boxes, simplices, vertex and half-space polyhedra, flat polygons, exactly touching integer "
    "boxes; some of them derived from each other) into a shared bag from which one to three threads take pairs, intersect them and "
    "put the results back, moving and rebuilding some; the seeded schedule decides the merge tree, interrupts hit and steps repeat. "
    "Every node of the tree is compared with the half-spaces of its leaves. Non-trivial: at least two intersections.",
    "real": ["rigeo.ConvexPolyhedron, Box, SpanForm, FaceForm", "pycddlib"],
    "stub": ["thread scheduler"],
    "assumptions": [
        "a region counts as clearly non-empty (empty) when its inscribed radius is above 1e-4 (below -1e-6); in between, except for "
        "the exactly represented integer boxes, either answer is accepted"
    ],
}

FULL, EMPTY = 1e-4, -1e-6


# Two genuine defects (known_findings.txt), both the floating-point cdd's; runs 0 and 1 keep watching them. A face of one
# operand almost (4.7e-6) through the origin, and faces of the operands almost (2e-5) parallel, each make it lose most corners
# of the intersection.
PINNED = {
    "near-origin-face": [
        {
            "k": "box",
            "he": [1.2591916416351414, 0.3487582981651133, 0.7304599673183007],
            "c": [-0.16088936921866752, -0.3487536164129042, 0.37843659218574583],
            "R": None,
            "ctor": "plain",
        },
        {
            "k": "box",
            "he": [0.563765810486189, 0.34439133331022853, 1.094369245675929],
            "c": [0.2526179554115891, -0.12841919375825725, 0.3526989461784645],
            "R": [
                [0.023676914692014717, -0.3228365076310134, -0.9461585454094241],
                [0.770613268672323, -0.5970177471703573, 0.22299103055905367],
                [-0.6368630887850424, -0.7344020689678381, 0.23464655812292157],
            ],
            "ctor": "plain",
        },
    ],
    "near-parallel-faces": [
        {
            "k": "box",
            "he": [1.585462669302073, 1.402675003842462, 0.4412962141414411],
            "c": [1.3570855325439106, -1.1627065096758703, -1.7695918196722683],
            "R": [
                [0.999999999474584, -2.0921945956165763e-05, -2.4760939957502617e-05],
                [2.0921538270888326e-05, 0.9999999996455965, -1.6464498146417997e-05],
                [2.4761284428549458e-05, 1.6464480100782772e-05, 0.9999999995578999],
            ],
            "ctor": "plain",
        },
        {
            "k": "box",
            "he": [2.0, 1.7787359547695634, 0.8677834147115439],
            "c": [1.9286881707213433, -0.3377109379797843, -1.9976788113645675],
            "R": [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]],
            "ctor": "plain",
        },
    ],
}


# ----------------------------------------------------------------- generation
def conditioned(V, n, b):
    """Whether no vertex is nearly on, and no two faces are nearly in, the same plane.

    Recovering the faces of other polyhedra from their vertices is beyond the
    floating-point cdd (see DESIGN.md, known limits)."""
    d = np.abs(V @ n.T - b)
    if ((d > 1e-9) & (d < 2e-3)).any():
        return False
    c = n @ n.T
    c = c[np.triu_indices(len(c), 1)]
    return not ((c < 1 - 1e-9) & (c > np.cos(0.03))).any()


def nearly_axis(R):
    """Axes almost, but not quite, those of the coordinate frame: faces of two such operands are almost parallel."""
    d = np.abs(R - np.round(R)).max()
    return 1e-12 < d < 0.03


def gen_far_T(rng, dim):
    while True:
        T = geom.gen_T(rng, dim)
        if T["R"] is None or not nearly_axis(np.array(T["R"])):
            return T


def gen_leaf(rng, dim, near):
    while True:
        r = rng.random()
        if dim == 3 and r < 0.35:
            s = geom.gen_box(rng, thin=False)
        elif r < 0.5:
            s = geom.gen_simplex(rng, dim)
        else:
            s = geom.gen_poly(rng, dim, flat=0.12 if dim == 3 else 0)
        if s.get("R") is not None and nearly_axis(np.array(s["R"])):
            continue
        m = geom.M(s)
        o, B, eq, N = hull(m)
        V = (m.V - o) @ B if m.k == "poly" else None
        if V is not None and not conditioned(V, eq[:, :-1], -eq[:, -1]):
            continue
        # bring the centre into the common neighbourhood
        t = -m.center() + np.array([rng.uniform(-1, 1) for _ in range(dim)]) * near
        n = eq[:, :-1] @ B.T
        d = np.abs(-eq[:, -1] + n @ (o + t))
        if ((d > 1e-9) & (d < 2e-3)).any():
            continue  # a face almost through the origin: see PINNED
        break
    s["via"] = [{"R": None, "t": t.tolist()}]
    s["ctor"] = rng.choice(["plain", "plain", "halfspaces", "scaled-halfspaces", "pruned-halfspaces", "pruned-vertices"])
    return s


def gen_protruding(rng, a):
    """A box inside another except that it sticks out of it (or stays in it) by very little."""
    lo, hi = list(a["lo"]), list(a["hi"])
    for k in range(3):
        lo[k] += 0.25 * rng.randint(0, 1)
        hi[k] -= 0.25 * rng.randint(0, 1)
    k = rng.randrange(3)
    d = 10 ** rng.uniform(-5, -3) * rng.choice([1, 1, -1])
    if (rng.random() < 0.5 or a["lo"][k] == 0) and a["hi"][k] != 0:  # no face almost through the origin: see PINNED
        hi[k] = a["hi"][k] + d
    else:
        lo[k] = a["lo"][k] - d
    return {"k": "grid", "lo": lo, "hi": hi, "ctor": rng.choice(["box", "vertices", "halfspaces"])}


def gen(rng, tier, i):
    if i < len(PINNED):
        k = list(PINNED)[i]
        return {"family": "pinned", "name": k, "leaves": PINNED[k]}
    if rng.random() < 0.3:
        # exactly representable boxes: overlapping, touching in faces, edges, points, or apart
        n = rng.choice([2, 3, 4, 6])
        leaves = []
        for _ in range(n):
            lo, hi = [], []
            for _ in range(3):
                a = rng.randint(-4, 2)
                lo.append(a / 2)
                hi.append((a + rng.randint(2, 6)) / 2)
            leaves.append(
                {"k": "grid", "lo": lo, "hi": hi, "ctor": rng.choice(["box", "vertices", "halfspaces", "scaled-halfspaces"])}
            )
        if rng.random() < 0.4:
            leaves.insert(rng.randint(1, n), gen_protruding(rng, leaves[0]))
        family = "grid"
        dim = 3
    else:
        dim = rng.choice([3, 3, 3, 2])
        near = rng.choice([0.1, 0.4, 0.4, 0.8, 2.0])
        leaves = [gen_leaf(rng, dim, near) for _ in range(rng.choice([2, 3, 4, 5, 7, 9]))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            leaves.append(dict(rng.choice(leaves)))  # an equal one, or one that shares faces
        family = "general"
    nth = rng.choice([1, 1, 2, 3])
    threads = []
    for _ in range(nth):
        acts = []
        for _ in range(rng.choice([2, 4, 8])):
            r = rng.random()
            if r < 0.65:
                acts.append(["meet", rng.randrange(100), rng.randrange(100)])
            elif r < 0.75:
                acts.append(["self", rng.randrange(100)])
            elif r < 0.9:
                acts.append(["rebuild", rng.randrange(100), rng.choice(["vertices", "halfspaces", "pruned", "pickle", "both"])])
            else:
                acts.append(["again", rng.randrange(100), rng.randrange(100)])
        threads.append(acts)
    s = core.gen_sched(rng, nth)
    s["faults"] = [
        [
            rng.randrange(nth),
            rng.choice([rng.randint(1, 40), rng.randint(1, 400)]),
            rng.choice(["KeyboardInterrupt", "MemoryError"]),
        ]
        for _ in range(rng.choice([0, 0, 1, 3]))
    ]
    return {
        "family": family,
        "dim": dim,
        "leaves": leaves,
        "threads": threads,
        "sched": s,
        "T": gen_far_T(rng, dim) if family == "general" else None,
        "final": rng.choice(["left", "right", "tree"]),
        "seed": rng.randrange(1 << 30),
    }


# ------------------------------------------------------------------ reference
def hull(m):
    if m.k != "box":
        return m.hull()
    eq = np.hstack([np.vstack([np.eye(3), -np.eye(3)]), -np.concatenate([m.he, m.he])[:, None]])
    return m.c, m.R, eq, np.zeros((3, 0))


class Ref:
    """The common region of a set of leaves."""

    def __init__(self, models):
        self.models = models
        self.dim = models[0].dim
        self.o, self.B = np.zeros(self.dim), np.eye(self.dim)
        A, b, flats = [], [], []
        for m in models:
            o, B, eq, N = hull(m)
            if N.shape[1]:
                flats.append((o, B, N))
            n = eq[:, :-1] @ B.T
            A.append(n)
            b.append(-eq[:, -1] + n @ o)
        A, b = np.vstack(A), np.concatenate(b)
        self.ambiguous = False
        self.flat = bool(flats)
        if flats:
            o, B, N = flats[0]
            if any(np.abs((f[0] - o) @ N).max() > 1e-12 or np.abs(f[1].T @ N).max() > 1e-12 for f in flats[1:]):
                self.ambiguous = True  # two different planes
            self.o, self.B = o, B
            b = b - A @ o
            A = A @ B
        nn = np.linalg.norm(A, axis=1)
        k = nn > 1e-9
        if (b[~k] < -1e-6).any():
            self.r = -1.0
            return
        if not k.all() and (b[~k] < 1e-4).any():
            self.ambiguous = True
        A, b = A[k] / nn[k, None], b[k] / nn[k]
        if flats and (nn[k] < 0.05).any():
            self.ambiguous = True  # a face almost parallel to the flat operand
        self.A, self.b = A, b
        n = A.shape[1]
        res = scipy.optimize.linprog(
            np.append(np.zeros(n), -1.0),
            A_ub=np.hstack([A, np.ones((len(A), 1))]),
            b_ub=b,
            bounds=[(None, None)] * (n + 1),
            method="highs",
        )
        if res.status != 0:
            raise RuntimeError(f"reference LP: {res.message}")
        self.r, self.x = res.x[-1], res.x[:-1]
        self._V = None

    def state(self):
        if self.r < EMPTY:
            return "empty"
        if self.ambiguous or self.r < FULL:
            return "unclear"
        return "full"

    def vertices(self):
        if self._V is None:
            if self.A.shape[1] == 1:
                hi = np.min((self.b / self.A[:, 0])[self.A[:, 0] > 0])
                lo = np.max((self.b / self.A[:, 0])[self.A[:, 0] < 0])
                P = np.array([[lo], [hi]])
            else:
                P = scipy.spatial.HalfspaceIntersection(np.hstack([self.A, -self.b[:, None]]), self.x).intersections
            self._V = P @ self.B.T + self.o
        return self._V

    def conditioned(self):
        W = (self.vertices() - self.o) @ self.B
        return self.r > 1e-2 and conditioned(W, self.A, self.b)

    def viol(self, P):
        return np.max([m.viol(P) for m in self.models], axis=0)


class Grid:
    """Intersection of exactly represented boxes."""

    def __init__(self, leaves):
        self.lo = np.max([l["lo"] for l in leaves], axis=0)
        self.hi = np.min([l["hi"] for l in leaves], axis=0)
        self.dim = 3
        self.flat = bool((self.lo == self.hi).any())
        self.r = float(np.min(self.hi - self.lo))

    def state(self):
        return "empty" if (self.lo > self.hi).any() else "full"

    def conditioned(self):
        return True

    def vertices(self):
        return np.array([[(self.lo, self.hi)[s][k] for k, s in enumerate(c)] for c in itertools.product([0, 1], repeat=3)])

    def viol(self, P):
        P = np.atleast_2d(P)
        return np.max(np.maximum(self.lo - P, P - self.hi), axis=1)


def scales(key, n):
    """Positive factors for half-space rows, fixed by the leaf."""
    r = random.Random(repr([float(x) for x in key]))
    return np.array([r.choice([0.125, 0.5, 1.0, 3.0]) for _ in range(n)])


def build_leaf(l):
    if l["k"] == "grid":
        lo, hi = np.array(l["lo"]), np.array(l["hi"])
        if l["ctor"] == "box":
            return rg.Box.from_two_vertices(lo, hi)
        if l["ctor"] == "vertices":
            return rg.ConvexPolyhedron.from_vertices(Grid([l]).vertices())
        f = scales(l["lo"], 6) if l["ctor"] == "scaled-halfspaces" else np.ones(6)
        return rg.ConvexPolyhedron.from_halfspaces(np.vstack([np.eye(3), -np.eye(3)]) * f[:, None], np.concatenate([hi, -lo]) * f)
    m = geom.M(l)
    if l["ctor"] in ("halfspaces", "pruned-halfspaces", "scaled-halfspaces"):
        o, B, eq, N = hull(m)
        if not N.shape[1]:
            A = eq[:, :-1] @ B.T
            b = -eq[:, -1] + A @ o
            if l["ctor"] == "scaled-halfspaces":
                f = scales(A.ravel(), len(A))
                return rg.ConvexPolyhedron.from_halfspaces(A * f[:, None], b * f)
            prune = l["ctor"] == "pruned-halfspaces"
            if prune:
                far = np.vstack([A, A[:2]])  # redundant rows on top
                return rg.ConvexPolyhedron.from_halfspaces(far, np.concatenate([b, b[:2] + 0.5]), prune=True)
            return rg.ConvexPolyhedron.from_halfspaces(A, b)
    if l["ctor"] == "pruned-vertices" and m.k == "poly":
        V = np.vstack([m.V, m.V.mean(axis=0), 0.5 * m.V[0] + 0.5 * m.V.mean(axis=0)])
        return rg.ConvexPolyhedron.from_vertices(V, prune=True)
    return geom.build(l)


def rebuild(o, how):
    P = rg.ConvexPolyhedron
    if how == "vertices":
        return P.from_vertices(o.vertices)
    if how == "halfspaces":
        return P.from_halfspaces(o.A, o.b)
    if how == "pruned":
        return P.from_vertices(o.vertices, prune=True)
    if how == "both":
        return P(face_form=o.face_form, span_form=o.span_form)
    return pickle.loads(pickle.dumps(o))


# ------------------------------------------------------------------ execution
def run_pinned(plan, ctx):
    a, b = (geom.build(l) for l in plan["leaves"])
    ref = Ref([geom.M(l) for l in plan["leaves"]])
    g = np.random.Generator(np.random.PCG64(1))
    for what, f in (("a, b", lambda: a.intersect(b)), ("b, a", lambda: b.intersect(a))):
        try:
            check(what, f(), frozenset([0, 1]), ref, (a, b), g, ctx)
        except (Violation, RuntimeError) as v:
            raise Violation(plan["name"], f"pinned boxes, {v}")


def run(plan, ctx):
    if plan["family"] == "pinned":
        return run_pinned(plan, ctx)
    leaves = plan["leaves"]
    grid = plan["family"] == "grid"
    models = None if grid else [geom.M(l) for l in leaves]
    objs = [build_leaf(l) for l in leaves]
    before = [ops.canon(o) for o in objs]
    bag = [(o, frozenset([k])) for k, o in enumerate(objs)]
    every = []
    refs = {}

    def ref(ids):
        if ids not in refs:
            refs[ids] = Grid([leaves[k] for k in sorted(ids)]) if grid else Ref([models[k] for k in sorted(ids)])
        return refs[ids]

    def meet(a, b):
        if a is None or b is None:
            return None
        return a.intersect(b)

    def attempt(f):
        for _ in range(8):
            try:
                return f()
            except BaseException as e:
                if not is_simulated(e):
                    raise
                core.retrace()
                ctx.fault("step-repeated")
        return f()

    def task(t):
        def body():
            for a in plan["threads"][t]:
                if a[0] == "meet" and len(bag) >= 2:
                    x = bag.pop(a[1] % len(bag))
                    y = bag.pop(a[2] % len(bag))
                    r = attempt(lambda: meet(x[0], y[0]))
                    e = (r, x[1] | y[1])
                    every.append((f"thread {t}: meet", *e, (x[0], y[0])))
                    bag.append(e)
                    ctx.fault("intersection")
                elif a[0] == "self" and bag:
                    x = bag[a[1] % len(bag)]
                    r = attempt(lambda: meet(x[0], x[0]))
                    every.append((f"thread {t}: with itself", r, x[1], (x[0],)))
                    ctx.fault("intersection")
                elif a[0] == "again" and bag:
                    # a partial result meets one of its own operands
                    x = bag[a[1] % len(bag)]
                    k = sorted(x[1])[a[2] % len(x[1])]
                    r = attempt(lambda: meet(objs[k], x[0]))
                    every.append((f"thread {t}: with an operand", r, x[1], (x[0],)))
                    ctx.fault("intersection")
                elif a[0] == "rebuild" and bag:
                    k = a[1] % len(bag)
                    x = bag.pop(k)
                    if x[0] is not None and a[2] != "pickle" and (degenerate(ref(x[1])) or not ref(x[1]).conditioned()):
                        bag.append(x)
                        continue
                    r = None if x[0] is None else attempt(lambda: rebuild(x[0], a[2]))
                    every.append((f"thread {t}: rebuilt from {a[2]}", r, x[1], ()))
                    bag.append((r, x[1]))

        return body

    run_tasks([task(t) for t in range(len(plan["threads"]))], plan["sched"], ctx, budget=10_000_000)

    # the rest, in the main thread
    items = list(bag)
    while len(items) > 1:
        if plan["final"] == "left":
            x, y, items = items[0], items[1], items[2:]
            pos = 0
        elif plan["final"] == "right":
            y, x, items = items[-1], items[-2], items[:-2]
            pos = len(items)
        else:
            x, y, items = items[0], items[1], items[2:]
            pos = len(items)
        r = (meet(x[0], y[0]), x[1] | y[1])
        every.append(("final fold", *r, (x[0], y[0])))
        items.insert(pos, r)
        ctx.fault("intersection")
    total, ids = items[0]
    # once more, straight from the operands in order
    direct = objs[0]
    for k, o in enumerate(objs[1:]):
        direct = meet(direct, o)
        every.append(("left fold", direct, frozenset(range(k + 2)), (o,)))
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    for what, o, s, parents in every:
        check(what, o, s, ref(s), parents, g, ctx)
    st = ref(ids).state()
    if total is not None and direct is not None and st == "full":
        tol = 1e-6
        if not total.is_same(direct, tol=tol) and type(total) is type(direct):
            raise Violation("order", f"two foldings of {sorted(ids)} are not the same")
        if plan["T"] is not None and not ref(ids).flat:
            R, t = geom.arr(plan["T"].get("R")), geom.arr(plan["T"].get("t"))
            moved = [o.transform(rotation=R, translation=t) for o in objs]
            r = moved[-1]
            for o in moved[-2::-1]:
                r = meet(r, o)
            if r is None:
                raise Violation("lost", f"{sorted(ids)}: the moved operands have no common region")
            V = total.vertices @ (np.eye(plan["dim"]) if R is None else R).T + (0 if t is None else t)
            d = hausdorff(V, r.vertices)
            if d > 1e-5 / min(1.0, ref(ids).r):
                raise Violation("moved", f"intersecting and moving differ by {d:.3g} from moving and intersecting")
    for k, (o, c) in enumerate(zip(objs, before)):
        d = ops.same(c, ops.canon(o), 0)
        if d:
            raise Violation("operand-changed", f"operand {k}: {d}")


def degenerate(r):
    return r.state() != "full" or r.flat


def hausdorff(V, W):
    D = scipy.spatial.distance.cdist(V, W)
    return float(max(D.min(axis=1).max(), D.min(axis=0).max()))


def check(what, o, ids, ref, parents, g, ctx):
    ctx.evals += 1
    what = f"{what} of {sorted(ids)}"
    st = ref.state()
    ctx.log(what, st, o is None)
    ctx.probe("region-" + st + ("-flat" if st == "full" and ref.flat else ""))
    if o is None:
        if st == "full":
            raise Violation("lost", f"{what}: no intersection reported, but the common region has inscribed radius {ref.r:.3g}")
        return
    if st == "empty":
        raise Violation("invented", f"{what}: an intersection was reported, but the operands are {-ref.r:.3g} apart")
    V = np.asarray(o.vertices, dtype=float)
    if V.ndim != 2 or V.shape[1] != ref.dim or not np.isfinite(V).all():
        raise Violation("vertices", f"{what}: vertices {V!r:.200}")
    sc = max(1.0, float(np.abs(V).max()))
    tol = 1e-6 * sc
    e = float(np.max(ref.viol(V)))
    if e > tol:
        raise Violation("too-big", f"{what}: a vertex lies {e:.3g} outside an operand")
    if st == "unclear":
        return
    tol = 1e-6 * sc / min(1.0, max(ref.r, 1e-4)) if not ref.flat else 1e-5 * sc
    tol = min(tol, 1e-3)
    W = ref.vertices()
    # the region's true vertices are in the result, by its vertices and by its faces
    D = g.normal(size=(12, ref.dim))
    D /= np.linalg.norm(D, axis=1)[:, None]
    gap = float(np.max((W @ D.T).max(axis=0) - (V @ D.T).max(axis=0)))
    if gap > tol:
        raise Violation("too-small", f"{what}: the result misses a part of the common region, {gap:.3g} wide")
    A, b = np.asarray(o.A, dtype=float), np.asarray(o.b, dtype=float)
    nn = np.maximum(np.linalg.norm(A, axis=1), 1e-12)
    e = float(np.max((W @ A.T - b) / nn))
    if e > tol:
        raise Violation("faces", f"{what}: a face cuts off {e:.3g} of the common region")
    e = float(np.max((V @ A.T - b) / nn))
    if e > tol:
        raise Violation("inconsistent", f"{what}: vertices and faces disagree by {e:.3g}")
    c = W.mean(axis=0)
    # points inside, by every description
    w = g.dirichlet(np.ones(len(W)), size=8)
    P = w @ W
    P = c + (P - c) * (1 - 1e-4)
    ins = ref.viol(P) < (1e-9 if ref.flat else -1e-6)
    if not np.asarray(o.contains(P, tol=1e-7))[ins].all():
        raise Violation("contains", f"{what}: a common point is not in the result")
    out = c + (P - c) * 3.0 + D[:8] * 0.3 * sc
    k = ref.viol(out) > 1e-4
    if np.asarray(o.contains(out))[k].any():
        raise Violation("contains", f"{what}: a point outside an operand is in the result")
    for p in parents:
        if p is not None and not p.contains_polyhedron(o, tol=max(1e-6, tol)):
            raise Violation("not-contained", f"{what}: the result is not contained in an operand")
    if ref.dim == 3 and not ref.flat:
        X = o.random_points(3, rng=g)
        if np.max(ref.viol(X)) > tol:
            raise Violation("samples", f"{what}: a sample of the result is outside an operand")
        bb = np.asarray(o.aabb().vertices)
        if max(np.abs(bb.max(axis=0) - W.max(axis=0)).max(), np.abs(bb.min(axis=0) - W.min(axis=0)).max()) > tol:
            raise Violation("aabb", f"{what}: bounding box of the result is off")


def nontrivial(plan, res):
    return res["faults"].get("intersection", 0) >= 2


def shrink(plan):
    if plan["family"] == "pinned":
        return
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    if len(plan["threads"]) > 1:
        for t in range(len(plan["threads"])):
            yield dict(
                plan,
                threads=[plan["threads"][t]],
                sched=dict({k: v for k, v in plan["sched"].items() if k != "switches"}, faults=[]),
            )
    if plan["T"] is not None:
        yield dict(plan, T=None)
    for t, acts in enumerate(plan["threads"]):
        for k in range(len(acts)):
            th = list(plan["threads"])
            th[t] = acts[:k] + acts[k + 1 :]
            yield dict(plan, threads=th)
    if len(plan["leaves"]) > 2:
        for k in range(len(plan["leaves"])):
            yield dict(plan, leaves=plan["leaves"][:k] + plan["leaves"][k + 1 :])
