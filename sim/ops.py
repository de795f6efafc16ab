"""Catalogue of the library's public operations, as data.

An operation is {"op": name, "a": [pool indices], "x": plain arguments}.
``apply`` executes one against live objects; ``canon`` turns any result into
comparable plain data using public attributes only.
"""
import dataclasses

import numpy as np
import cvxpy as cp

import geom
from world import rg

SHAPES3 = ("box", "ell", "cyl", "cap", "poly", "simplex")
POLYS = ("box", "poly", "simplex")


# -------------------------------------------------------------- object specs
def gen_params(rng, zero=0.08):
    how = rng.choice(["com_H", "h_H", "com_I", "tfc_I", "tfc_H", "points", "vec", "pim", "point", "ucom"])
    n = rng.randint(4, 7)
    pts = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
    m = [rng.uniform(0.1, 1.0) for _ in range(n)]
    if rng.random() < zero:
        return {"k": "params", "how": "zero"}
    r = rng.random()
    if r < 0.12:
        # symmetric mass whose moments are exact in binary: equal second moments
        # along the axes, with or without products
        a = [rng.choice([-3, -2, -1, 0, 1, 2, 3, 4]) / 4 for _ in range(3)]
        c = [rng.choice([0, 0, 1, -2, 3]) / 2 for _ in range(3)]
        if any(a):
            k = rng.choice(["cyc", "axes", "pair"])
            if k == "cyc":
                Q = [a, a[1:] + a[:1], a[2:] + a[:2]]
            elif k == "axes":
                s = max(abs(v) for v in a)
                Q = [[s, 0, 0], [0, s, 0], [0, 0, s]]
            else:
                Q = [a]
            pts = [[c[j] + s * q[j] for j in range(3)] for q in Q for s in (1, -1)]
            return {"k": "params", "how": how, "m": [0.5] * len(pts), "p": pts}
    return {"k": "params", "how": how, "m": m, "p": pts}


def params_ref(spec):
    """(mass, h, H) of a params spec, computed from its point masses."""
    if spec["how"] == "zero":
        return 0.0, np.zeros(3), np.zeros((3, 3))
    m = np.array(spec["m"])
    P = np.array(spec["p"])
    if spec["how"] in ("point", "ucom"):
        M = m.sum()
        c = P[0]
        return M, M * c, M * np.outer(c, c)
    return m.sum(), m @ P, (P * m[:, None]).T @ P


def build_params(spec, reg=lambda a: a):
    how = spec["how"]
    if how == "zero":
        return rg.InertialParameters.zero()
    M, h, H = params_ref(spec)
    c = h / M
    I = np.trace(H) * np.eye(3) - H
    Hc = H - M * np.outer(c, c)
    Ic = np.trace(Hc) * np.eye(3) - Hc
    C = rg.InertialParameters
    if how == "com_H":
        return C(mass=M, com=reg(c), H=reg(H))
    if how == "h_H":
        return C(mass=M, h=reg(h), H=reg(H))
    if how == "com_I":
        return C(mass=M, com=reg(c), I=reg(I))
    if how == "tfc_I":
        return C(mass=M, com=reg(c), I=reg(Ic), translate_from_com=True)
    if how == "tfc_H":
        return C(mass=M, com=reg(c), H=reg(Hc), translate_from_com=True)
    if how == "points":
        return C.from_point_masses(masses=reg(np.array(spec["m"])), points=reg(np.array(spec["p"])))
    if how == "vec":
        return C.from_vec(reg(np.concatenate([[M], h, I[np.triu_indices(3)]])))
    if how == "pim":
        J = np.zeros((4, 4))
        J[:3, :3], J[3, :3], J[:3, 3], J[3, 3] = H, h, h, M
        return C.from_pim(reg(J))
    if how == "point":
        return C(mass=M, com=reg(c))
    if how == "ucom":
        return C(mass=M, com=reg(c), translate_from_com=True)
    raise ValueError(how)


def gen_obj(rng, pool, heavy=True):
    """A random object spec; ``pool`` holds the specs before it."""
    r = rng.random()
    shapes = [i for i, s in enumerate(pool) if s["k"] in SHAPES3 and geom.M(s).dim == 3]
    pars = [i for i, s in enumerate(pool) if s["k"] == "params"]
    if r < 0.5:
        return geom.add_via(rng, geom.gen_shape(rng, SHAPES3, degenerate=0.2), 0.3)
    if r < 0.56:
        return geom.add_via(rng, geom.gen_ell(rng, dims=(1, 2, 4)), 0.3)
    if r < 0.72:
        return gen_params(rng)
    if r < 0.84 and shapes:
        return {"k": "body", "s": [rng.choice(shapes) for _ in range(rng.randint(1, 3))], "p": rng.choice(pars) if pars and rng.random() < 0.8 else None}
    if r < 0.88:
        p = geom.gen_poly(rng, dim=rng.choice([2, 3]))
        d = {"k": "span", "V": p["V"]}
        if rng.random() < 0.3:
            d["rays"] = [[rng.uniform(0.2, 1) for _ in p["V"][0]]]
        return d
    if r < 0.91:
        n = rng.choice([2, 3])
        A = np.vstack([np.eye(n), -np.eye(n)]).tolist()
        b = [rng.uniform(0.3, 1.5) for _ in range(2 * n)]
        A.append([rng.gauss(0, 1) for _ in range(n)])
        b.append(rng.uniform(0.3, 1.5))
        return {"k": "face", "A": A, "b": b}
    if r < 0.945:
        n = rng.choice([1, 2, 3])
        co = [[[rng.randint(0, 2) for _ in range(n)], rng.uniform(-2, 2)] for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.1:
            rng.choice(co)[1] *= 10.0 ** rng.choice([-6, -10, -14])
        return {"k": "pol", "n": n, "co": co, "keys": rng.random() < 0.4}
    if r < 0.98:
        n, d = rng.choice([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 1), (3, 2), (3, 2), (4, 1), (5, 1), (1, 5), (2, 3)])
        return {"k": "mm", "n": n, "d": d}
    return {"k": "sv", "l": [rng.gauss(0, 1) for _ in range(3)], "a": [rng.gauss(0, 1) for _ in range(3)]}


def gen_pool(rng, n):
    pool = []
    for _ in range(n):
        pool.append(gen_obj(rng, pool))
    return pool


def build_obj(spec, objs, reg=lambda a: a):
    k = spec["k"]
    if k in SHAPES3:
        return geom.build(spec, reg)
    if k == "params":
        return build_params(spec, reg)
    if k == "body":
        lst = [objs[i] for i in spec["s"]]
        lst = reg(lst)
        p = objs[spec["p"]] if spec["p"] is not None else None
        if len(lst) == 1 and spec.get("bare"):
            return rg.RigidBody(lst[0], params=p)
        return rg.RigidBody(lst, params=p)
    if k == "span":
        return rg.SpanForm(vertices=geom.arr(spec["V"], reg), rays=geom.arr(spec.get("rays"), reg))
    if k == "face":
        return rg.FaceForm(A_ineq=geom.arr(spec["A"], reg), b_ineq=geom.arr(spec["b"], reg))
    if k == "pol":
        key = rg.MomentIndex if spec.get("keys") else tuple
        return rg.Polynomial(reg({key(tuple(i)): c for i, c in spec["co"]}))
    if k == "mm":
        return rg.MomentMatrix(n=spec["n"], d=spec["d"])
    if k == "sv":
        return rg.SV(linear=geom.arr(spec["l"], reg), angular=geom.arr(spec["a"], reg))
    raise ValueError(k)


# -------------------------------------------------------------------- canon
def assign_values(variables, seed=7):
    for n, v in enumerate(sorted(variables, key=lambda v: v.id)):
        g = np.random.RandomState(seed + n)
        shp = v.shape
        if v.attributes.get("PSD"):
            X = g.normal(size=shp)
            v.value = X @ X.T
        elif v.attributes.get("symmetric"):
            X = g.normal(size=shp)
            v.value = X + X.T
        elif v.attributes.get("nonneg"):
            v.value = np.abs(g.normal(size=shp))
        else:
            v.value = g.normal(size=shp) if shp else float(g.normal())


def canon_constraints(cons):
    vs = {}
    for c in cons:
        if hasattr(c, "variables"):
            for v in c.variables():
                vs[v.id] = v
    assign_values(vs.values())
    out = []
    for c in cons:
        if not hasattr(c, "args"):
            out.append(("const", bool(c)))
            continue
        out.append((type(c).__name__, [np.array(a.value, dtype=float) for a in c.args]))
    return ("constraints", out)


def canon(x, depth=0):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ("num", float(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, [canon(y) for y in x.ravel()])
        return ("arr", x.shape, "b" if x.dtype == bool else "n", x.astype(float).copy())
    if isinstance(x, rg.Box):
        return ("Box", canon(x.half_extents), canon(x.center), canon(x.rotation), canon(x.vertices), canon(x.A), canon(x.b))
    if isinstance(x, rg.ConvexPolyhedron):
        return ("Poly", canon(x.vertices), canon(x.A), canon(x.b))
    if isinstance(x, rg.Ellipsoid):
        return ("Ell", canon(x.half_extents), canon(x.center), canon(x.rotation))
    if isinstance(x, rg.Cylinder):
        return ("Cyl", canon(x.length), canon(x.radius), canon(x.center), canon(x.rotation))
    if isinstance(x, rg.Capsule):
        return ("Cap", canon(x.cylinder))
    if isinstance(x, rg.InertialParameters):
        return ("Params", canon(x.mass), canon(np.asarray(x.com)), canon(np.asarray(x.H)))
    if isinstance(x, rg.RigidBody):
        return ("Body", [canon(s) for s in x.shapes], canon(x.params))
    if isinstance(x, rg.SpanForm):
        return ("Span", canon(x.vertices), canon(x.rays))
    if isinstance(x, rg.FaceForm):
        return ("Face", canon(x.A), canon(x.b))
    if isinstance(x, rg.MomentIndex):
        return ("Idx", tuple(x.value))
    if isinstance(x, rg.Polynomial):
        return ("Pol", sorted((tuple(i.value), float(c)) for i, c in x.coefficients.items()))
    if isinstance(x, rg.MomentMatrix):
        return ("MM", x.n, x.d, canon(x.indices))
    if isinstance(x, rg.SpatialVector):
        return ("SV", canon(x.vec))
    if dataclasses.is_dataclass(x):
        return (type(x).__name__, [(f.name, canon(getattr(x, f.name))) for f in dataclasses.fields(x)])
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(c, cp.constraints.constraint.Constraint) or isinstance(c, (bool, np.bool_)) for c in x):
            return canon_constraints(x)
        return (type(x).__name__, [canon(y) for y in x])
    if isinstance(x, cp.Expression):
        assign_values(x.variables())
        return ("expr", canon(np.array(x.value, dtype=float)))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), canon(v)) for k, v in x.items()))
    return ("other", type(x).__name__)


def same(a, b, tol=1e-9):
    """None if equal, else a short description of the difference."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"shape {a.shape} vs {b.shape}"
        if a.size == 0 or np.array_equal(a, b):
            return None
        na, nb = ~np.isfinite(a), ~np.isfinite(b)
        if na.any() or nb.any():
            if not np.array_equal(np.isnan(a), np.isnan(b)) or not np.array_equal(na, nb):
                return "non-finite entries differ"
            if not np.array_equal(np.sign(a[na & ~np.isnan(a)]), np.sign(b[nb & ~np.isnan(b)])):
                return "infinities differ"
            a, b = a[~na], b[~nb]
            if a.size == 0:
                return None
        sc = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        d = float(np.max(np.abs(a - b)))
        return None if d <= tol * sc else f"values differ by {d:.3g}: {a.ravel()[:4]} vs {b.ravel()[:4]}"
    if type(a) is not type(b):
        return f"{type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                tag = a[0] if a and isinstance(a[0], str) else i
                return f"{tag}: {d}"
        return None
    if isinstance(a, float):
        if a == b or (np.isnan(a) and np.isnan(b)):
            return None
        if not (np.isfinite(a) and np.isfinite(b)):
            return f"{a} vs {b}"
        return None if abs(a - b) <= tol * max(1.0, abs(a), abs(b)) else f"{a} vs {b}"
    return None if a == b else f"{a!r} vs {b!r}"


# --------------------------------------------------------------- operations
OPS = {}


def op(name, kinds, gen=None, tol=1e-9, rand=False, solver=False, heavy=False, new=False):
    def deco(fn):
        OPS[name] = dict(kinds=kinds, gen=gen, fn=fn, tol=tol, rand=rand, solver=solver, heavy=heavy, new=new)
        return fn

    return deco


class Env:
    def __init__(self, objs, reg=None, solver=None, rng=None):
        self.objs = objs
        self._reg = reg
        self.solver = solver if solver is not None else cp.CLARABEL
        self.rng = rng

    def arr(self, x):
        return geom.arr(x, self._reg)

    def lst(self, x):
        return self._reg(x) if self._reg else x


def dim_of(spec):
    k = spec["k"]
    if k in SHAPES3:
        return geom.M(spec).dim
    if k in ("span", "face"):
        return len((spec.get("V") or spec.get("A"))[0])
    return 3


def full3(spec):
    """A full-dimensional three-dimensional shape."""
    if spec["k"] not in SHAPES3 or geom.M(spec).dim != 3:
        return False
    return not (spec["k"] == "ell" and min(spec["he"]) < 1e-8)


def g_none(rng, pool, i):
    return {}


def g_points(rng, pool, i):
    m = geom.M(pool[i])
    g = np.random.RandomState(rng.randrange(1 << 30))
    n = rng.randint(1, 8)
    c = m.center()
    P = c + g.normal(size=(n, m.dim)) * m.scale * 0.4
    x = {"P": P.tolist()}
    if rng.random() < 0.3:
        x["tol"] = 0.1
    return x


def g_T(rng, pool, i):
    return geom.gen_T(rng, dim_of(pool[i]))


def g_pair(pred):
    def g(rng, pool, i):
        c = [j for j, s in enumerate(pool) if pred(s) and dim_of(s) == dim_of(pool[i])]
        if not c:
            return None
        return {"j": rng.choice(c)}

    return g


def g_solverpair(pred):
    def g(rng, pool, i):
        if not pred(pool[i]):
            return None
        return g_pair(pred)(rng, pool, i)

    return g


def g_seed(rng, pool, i):
    from simlib import gen_shape_arg

    return {"seed": rng.randrange(1 << 30), "n": gen_shape_arg(rng, 12)}


def g_mass(rng, pool, i):
    return {"m": rng.choice([0.5, 1.0, rng.uniform(0.1, 5)])}


def g_eps(rng, pool, i):
    if not full3(pool[i]):
        return None
    return {"eps": rng.choice([0, 0, 0.01, 0.1]), "var": rng.choice(["vec", "pim"]), "d": 2}


def var_of(x):
    return cp.Variable(10) if x["var"] == "vec" else cp.Variable((4, 4), PSD=True)


is_poly = lambda s: s["k"] in POLYS
is_shape = lambda s: s["k"] in SHAPES3
is_ell3 = lambda s: s["k"] == "ell" and len(s["he"]) == 3 and min(s["he"]) > 1e-8
is_par = lambda s: s["k"] == "params"
is_body = lambda s: s["k"] == "body"
is_sv = lambda s: s["k"] == "sv"

op("contains", SHAPES3, g_points)(lambda e, o, x: o.contains(e.arr(x["P"]), **({"tol": x["tol"]} if "tol" in x else {})))
op("contains1", SHAPES3, g_points)(lambda e, o, x: o.contains(e.arr(x["P"][0])))
op("must_contain", SHAPES3, lambda r, p, i: {"n": r.choice([0, 1, 2]), "scale": r.choice([1.0, 2.5])})(
    lambda e, o, x: o.must_contain(cp.Variable(getattr(o, "dim", 3)) if x["n"] == 0 else cp.Variable((x["n"], getattr(o, "dim", 3))), scale=x["scale"])
)
op("contains_polyhedron", SHAPES3, g_pair(is_poly))(lambda e, o, x: o.contains_polyhedron(e.objs[x["j"]]))
op("is_same", SHAPES3, g_pair(is_shape))(lambda e, o, x: bool(o.is_same(e.objs[x["j"]])))


@op("is_same_copy", SHAPES3, g_T)
def _(e, o, x):
    a = o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"]))
    b = o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"]))
    return bool(a.is_same(b)), bool(b.is_same(a, tol=1e-3))


def g3(rng, pool, i):
    return {} if dim_of(pool[i]) == 3 else None


def gfull(rng, pool, i):
    return {} if full3(pool[i]) else None


op("aabb", SHAPES3, g3)(lambda e, o, x: o.aabb())
op("grid", SHAPES3, lambda r, p, i: {"n": r.choice([2, 3, 5])} if dim_of(p[i]) == 3 else None)(lambda e, o, x: o.grid(x["n"]))
op("transform", SHAPES3, g_T, new=True)(lambda e, o, x: o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"])))
op("rotate_about_center", ("box", "ell"), lambda r, p, i: {"R": geom.rot(r, dim_of(p[i])).tolist()}, new=True)(
    lambda e, o, x: o.rotate_about_center(e.arr(x["R"]))
)
op("mbe_cheap", ("box", "cyl"), lambda r, p, i: {"sphere": r.random() < 0.4})(lambda e, o, x: o.mbe(sphere=x["sphere"]))
op("mbe_ell", ("ell",), lambda r, p, i: {"sphere": r.random() < 0.5})(lambda e, o, x: o.mbe(sphere=x["sphere"]))
op("mbe_solver", ("poly", "simplex", "cap"), lambda r, p, i: {"sphere": r.random() < 0.3}, tol=1e-4, solver=True)(
    lambda e, o, x: ("E", *_ellq(o.mbe(sphere=x["sphere"], solver=e.solver)))
)
op("mie_solver", ("poly", "simplex"), lambda r, p, i: {"sphere": r.random() < 0.3}, tol=1e-4, solver=True)(
    lambda e, o, x: ("E", *_ellq(o.mie(sphere=x["sphere"], solver=e.solver)))
)
op("mie_box", ("box",), lambda r, p, i: {"sphere": r.random() < 0.4})(lambda e, o, x: o.mie(sphere=x["sphere"]))


def _ellq(E):
    return np.asarray(E.E), np.asarray(E.center)


op("mib", ("ell", "cyl"), g3)(lambda e, o, x: o.mib())
op("mbb", ("ell", "cyl", "cap"), g3)(lambda e, o, x: o.mbb())
op("as_poly", ("box",), g_none, new=True)(lambda e, o, x: o.as_poly())
op("capsule", ("cyl",), g_none, new=True)(lambda e, o, x: o.capsule())
op("endpoints", ("cyl",), g_none)(lambda e, o, x: (o.endpoints(), o.longitudinal_axis, o.transverse_axes, o.volume))
op("cap_props", ("cap",), g_none)(lambda e, o, x: (o.center, o.rotation, o.inner_length, o.radius, o.full_length))
op("box_props", ("box",), g_none)(lambda e, o, x: (o.side_lengths, o.volume, o.diaglen, o.nf, o.nv, o.dim, repr(o) != ""))
op("poly_props", POLYS, g_none)(lambda e, o, x: (o.vertices, o.A, o.b, o.nf, o.nv, o.dim))
op("ell_props", ("ell",), g_none)(
    lambda e, o, x: (o.rank, o.dim, o.E, o.is_degenerate()) + ((o.S, o.A, o.b, o.Q) if not o.is_degenerate() else ())
)
op("on_surface", ("box", "ell"), g_points)(lambda e, o, x: o.on_surface(e.arr(x["P"])))
op("uniform_params", ("box", "ell", "cyl"), lambda r, p, i: g_mass(r, p, i) if dim_of(p[i]) == 3 else None, new=True)(lambda e, o, x: o.uniform_density_params(x["m"]))
op("hollow_params", ("box", "ell"), lambda r, p, i: g_mass(r, p, i) if full3(p[i]) else None, new=True)(lambda e, o, x: o.hollow_density_params(x["m"]))
op("wireframe_params", ("box",), g_mass, new=True)(lambda e, o, x: o.wireframe_density_params(x["m"]))


@op("vertex_params", POLYS, lambda r, p, i: {"m": r.uniform(0.5, 2), "each": r.random() < 0.5} if dim_of(p[i]) == 3 else None)
def _(e, o, x):
    if x["each"]:
        return o.vertex_point_mass_params(e.arr(np.linspace(0.1, x["m"], o.nv)))
    return o.vertex_point_mass_params(x["m"])


op("intersect", POLYS, g_pair(is_poly), new=True)(lambda e, o, x: o.intersect(e.objs[x["j"]]))
op("con_sdp", POLYS + ("cyl",), g_eps, heavy=True)(lambda e, o, x: o.moment_sdp_constraints(var_of(x), eps=x["eps"], d=2))
op("con_vertex", POLYS, g_eps)(lambda e, o, x: o.moment_vertex_constraints(var_of(x), eps=x["eps"]))
op("con_custom", ("box", "cyl"), g_eps)(lambda e, o, x: o.moment_custom_vertex_constraints(var_of(x), eps=x["eps"]))
op("con_ell", ("ell",), lambda r, p, i: {"eps": r.choice([0, 0.05]), "var": r.choice(["vec", "pim"])} if dim_of(p[i]) == 3 else None)(
    lambda e, o, x: o.moment_constraints(var_of(x), eps=x["eps"])
)


def g_realize(rng, pool, i):
    if dim_of(pool[i]) != 3:
        return None
    c = [j for j, s in enumerate(pool) if s["k"] == "params" and s["how"] != "zero"]
    return {"j": rng.choice(c), "eps": rng.choice([0, 0.01])} if c else None


op("can_realize", ("ell",), g_realize)(lambda e, o, x: bool(o.can_realize(e.objs[x["j"]], eps=x["eps"])))
op("contains_ellipsoid", ("ell",), g_solverpair(is_ell3), solver=True)(lambda e, o, x: bool(o.contains_ellipsoid(e.objs[x["j"]], solver=e.solver)))


@op("closest", SHAPES3, g_solverpair(full3), tol=1e-4, solver=True)
def _(e, o, x):
    r = rg.closest_points(o, e.objs[x["j"]], solver=e.solver)
    return ("dist", float(r.dist))


@op("scale_sum", ("ell",), lambda r, p, i: {"s": r.uniform(1.1, 2)} if dim_of(p[i]) == 3 and full3(p[i]) else None)
def _(e, o, x):
    return rg.Ellipsoid.from_shape_matrix(e.arr(o.S * x["s"]), center=e.arr(o.center)).E


op("from_affine", ("ell",), lambda r, p, i: {} if full3(p[i]) else None)(lambda e, o, x: rg.Ellipsoid.from_affine(e.arr(o.A), e.arr(o.b)).E)

# randomised
op("random_points", SHAPES3, g_seed, rand=True)(lambda e, o, x: o.random_points(shape=_n(x), rng=e.rng))
op("random_surface", ("box",), g_seed, rand=True)(lambda e, o, x: o.random_points_on_surface(shape=_n(x), rng=e.rng))
op("random_surface_ell", ("ell",), lambda r, p, i: g_seed(r, p, i) if min(p[i]["he"]) > 1e-8 and len(p[i]["he"]) > 1 else None, rand=True)(
    lambda e, o, x: o.random_points_on_surface(shape=_n(x), rng=e.rng)
)
op("random_edges", ("box",), g_seed, rand=True)(lambda e, o, x: o.random_points_on_edges(shape=_n(x), rng=e.rng))


def _n(x):
    return tuple(x["n"]) if isinstance(x["n"], list) else x["n"]


@op("rejection", SHAPES3, lambda r, p, i: g_seed(r, p, i) if full3(p[i]) and p[i]["k"] in ("box", "cap", "cyl") else None, rand=True)
def _(e, o, x):
    return rg.rejection_sample([o], o.aabb(), _n(x), rng=e.rng)


# span / face forms
op("span_face", ("span",), g_none)(lambda e, o, x: o.to_face_form())
op("span_canon", ("span",), g_none)(lambda e, o, x: o.canonical())
op("span_props", ("span",), g_none)(lambda e, o, x: (o.bounded(), o.is_cone(), o.nv, o.nr, o.dim))
op("span_T", ("span",), g_T, new=True)(lambda e, o, x: o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"])))
op("face_span", ("face",), g_none)(lambda e, o, x: o.to_span_form())
op("face_canon", ("face",), g_none)(lambda e, o, x: o.canonical())
op("face_props", ("face",), g_none)(lambda e, o, x: (o.nf, o.dim, o.A, o.b))
op("face_T", ("face",), g_T, new=True)(lambda e, o, x: o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"])))
op("face_stack", ("face",), g_pair(lambda s: s["k"] == "face"), new=True)(lambda e, o, x: o.stack(e.objs[x["j"]]))
op("face_poly", ("face",), g_none, new=True)(lambda e, o, x: rg.ConvexPolyhedron(face_form=o))
op("span_poly", ("span",), lambda r, p, i: None if p[i].get("rays") else {}, new=True)(lambda e, o, x: rg.ConvexPolyhedron(span_form=o))

# inertial parameters
op("par_props", ("params",), g_none)(lambda e, o, x: (o.mass, o.h, o.com, o.H, o.I, o.Hc, o.Ic, o.J, o.M, o.vec))
op("par_same", ("params",), g_pair(is_par))(lambda e, o, x: bool(o.is_same(e.objs[x["j"]])))
op("par_consistent", ("params",), lambda r, p, i: {"eps": r.choice([1e-6, 0.01, 0.5])})(lambda e, o, x: bool(o.consistent(eps=x["eps"])))
op("par_T", ("params",), g_T, new=True)(lambda e, o, x: o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"])))
op("par_add", ("params",), g_pair(is_par), new=True)(lambda e, o, x: o + e.objs[x["j"]])
op("par_sum", ("params",), g_pair(is_par), new=True)(lambda e, o, x: sum(e.lst([o, e.objs[x["j"]], o])))


@op("par_wrench", ("params",), lambda r, p, i: {"V": [r.gauss(0, 1) for _ in range(6)], "A": [r.gauss(0, 1) for _ in range(6)]})
def _(e, o, x):
    V, A = rg.SV.from_vec(e.arr(x["V"])), rg.SV.from_vec(e.arr(x["A"]))
    return o.body_wrench(V, A), rg.RigidBody.regressor(V, A)


op("par_round", ("params",), lambda r, p, i: {} if p[i]["how"] != "zero" else None)(
    lambda e, o, x: (rg.InertialParameters.from_vec(e.arr(o.vec)), rg.InertialParameters.from_pim(e.arr(o.J)))
)
op("par_random", ("params",), g_seed, rand=True)(lambda e, o, x: rg.InertialParameters.random(rng=e.rng))

# bodies
op("body_props", ("body",), g_none)(lambda e, o, x: o)
op("body_add", ("body",), g_pair(is_body), new=True)(lambda e, o, x: o + e.objs[x["j"]])
op("body_sum", ("body",), g_pair(is_body), new=True)(lambda e, o, x: sum(e.lst([o, e.objs[x["j"]]])))
op("body_T", ("body",), g_T, new=True)(lambda e, o, x: o.transform(rotation=e.arr(x["R"]), translation=e.arr(x["t"])))


def g_bodyreal(rng, pool, i):
    if not all(full3(pool[j]) and pool[j]["k"] != "cap" for j in pool[i]["s"]):
        return None
    return {"eps": rng.choice([0, 0.05]), "var": rng.choice(["vec", "pim"])}


op("body_sdp", ("body",), g_bodyreal, heavy=True)(lambda e, o, x: o.moment_sdp_constraints(var_of(x), eps=x["eps"]))
op("body_mbes", ("body",), lambda r, p, i: {"sphere": r.random() < 0.4} if all(p[j]["k"] in ("box", "cyl", "ell") for j in p[i]["s"]) else None, new=True)(
    lambda e, o, x: o.mbes(sphere=x["sphere"], solver=e.solver)
)

# polynomials, moment matrices, spatial vectors
op("pol_props", ("pol",), g_none)(lambda e, o, x: (o.degree, o, len(str(o)) > 0))
op("pol_eval", ("pol",), lambda r, p, i: {"x": [r.gauss(0, 1) for _ in range(p[i]["n"])]})(lambda e, o, x: o.evaluate(e.arr(x["x"])))
op("pol_add", ("pol",), g_pair(lambda s: s["k"] == "pol"), new=True)(
    lambda e, o, x: o + e.objs[x["j"]] if len(next(iter(o.coefficients)).value) == len(next(iter(e.objs[x["j"]].coefficients)).value) else None
)
op("pol_loc", ("pol",), lambda r, p, i: {"i": [r.randint(0, 2) for _ in range(p[i]["n"])]}, new=True)(lambda e, o, x: o.localize(rg.MomentIndex(x["i"])))
op("mm_props", ("mm",), g_none)(lambda e, o, x: (o.r, o.shape, o.indices, str(o) != ""))


@op("mm_con", ("mm",), g_none)
def _(e, o, x):
    M = cp.Variable(o.shape, PSD=True)
    return o.moment_constraints(M)


@op("mm_loc", ("mm",), g_pair(lambda s: s["k"] == "pol"))
def _(e, o, x):
    p = e.objs[x["j"]]
    if len(next(iter(p.coefficients)).value) != o.n:
        return None
    return o.localizing_matrix(0, p), p.degree


def g_polys(rng, n, deg):
    """Polynomials in n variables of degree at most deg, none of them zero."""
    out = []
    for _ in range(rng.randint(1, 3)):
        co = {}
        for _ in range(rng.randint(1, 4)):
            i = [0] * n
            for _ in range(rng.randint(0, deg)):
                i[rng.randrange(n)] += 1
            co[tuple(i)] = rng.uniform(0.2, 2) * rng.choice([1, -1])
        out.append([[list(i), c] for i, c in co.items()])
    return out


def g_mmval(rng, pool, i):
    n, d = pool[i]["n"], pool[i]["d"]
    k = rng.randint(1, 4)
    return {"X": [[rng.gauss(0, 1) for _ in range(n)] for _ in range(k)], "w": [rng.uniform(0.1, 1) for _ in range(k)], "p": g_polys(rng, n, min(2 * d, rng.choice([1, 2, 3])))}


def mm_value(o, x):
    """Moments of a few weighted points, arranged as the moment matrix."""
    b = np.array([[np.prod(np.array(X) ** np.array(i.value)) for i in rg.Polynomial.basis(o.n, o.d)] for X in x["X"]])
    return (b * np.array(x["w"])[:, None]).T @ b


def pol_of(e, co):
    return rg.Polynomial({tuple(i): c for i, c in co})


@op("mm_localize", ("mm",), g_mmval)
def _(e, o, x):
    M = e.arr(mm_value(o, x))
    return [o.localize(M, pol_of(e, p)) for p in x["p"]]


@op("mm_localize1", ("mm",), g_mmval)
def _(e, o, x):
    return o.localize(e.arr(mm_value(o, x)), pol_of(e, x["p"][0]))


@op("mm_lcon", ("mm",), lambda r, p, i: g_mmval(r, p, i) if p[i]["n"] + p[i]["d"] < 5 else None)
def _(e, o, x):
    M = cp.Variable(o.shape, PSD=True)
    return o.localizing_constraints(M, e.lst([pol_of(e, p) for p in x["p"]]))


def g_nd(rng, pool, i):
    n, d = rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3), (4, 1), (1, 4), (5, 1), (2, 4), (4, 2), (1, 9), (1, 14)])
    return {"n": n, "d": d}


op("pol_basis", ("pol", "mm"), g_nd)(lambda e, o, x: (rg.Polynomial.basis(x["n"], x["d"]), rg.Polynomial.dim(x["n"], x["d"]), rg.Polynomial.ones(x["n"], x["d"])))
op("mm_new", ("pol", "mm"), lambda r, p, i: (lambda x: x if x["d"] < 5 and x["n"] + x["d"] < 6 else None)(g_nd(r, p, i)), new=True)(lambda e, o, x: rg.MomentMatrix(n=x["n"], d=x["d"]))


def g_polx(rng, pool, i):
    n = pool[i]["n"]
    return {"x": [rng.gauss(0, 1) for _ in range(n)], "q": g_polys(rng, n, 2), "i": [rng.randint(0, 2) for _ in range(n)]}


@op("pol_chain", ("pol",), g_polx)
def _(e, o, x):
    """Add, localize and evaluate; the index objects are looked up by value."""
    q = pol_of(e, x["q"][0])
    idx = rg.MomentIndex(e.arr(x["i"]))
    s = o + q
    l = s.localize(idx)
    look = {rg.MomentIndex(i.value): c for i, c in s.coefficients.items()}
    vm = {i: 1.0 + sum(i.value) for i in look}
    v = s.substitute(vm)
    return s, l, l.evaluate(e.arr(x["x"])), [s.coefficients.get(k) for k in sorted(look, key=lambda k: k.value)], float(getattr(v, "value", v))


def numbers(r, n):
    return [r.gauss(0, 1) if r.random() < 0.6 else float(r.choice([-2, -1, -1, 0, 1, 2])) for _ in range(n)]


op("pol_affine", ("pol",), lambda r, p, i: {"a": numbers(r, r.randint(1, 4)), "b": numbers(r, 1)[0]}, new=True)(
    lambda e, o, x: rg.Polynomial.affine(a=e.arr(x["a"]), b=x["b"])
)
op("sv_ops", ("sv",), g_pair(is_sv))(
    lambda e, o, x: (o + e.objs[x["j"]], o - e.objs[x["j"]], o * 2.0, o / 3.0, o.adjoint(), o.linear, o.angular)
)

# free functions; any object may host them
ANY = SHAPES3 + ("params", "sv")


def g_mat(rng, pool, i):
    g = np.random.RandomState(rng.randrange(1 << 30))
    X = g.normal(size=(4, 3))
    return {"X": X.tolist(), "R": geom.rot3(rng).tolist(), "t": g.normal(size=3).tolist()}


@op("util_linear", ANY, g_mat)
def _(e, o, x):
    X = e.arr(x["X"])
    A = e.arr((np.array(x["X"]).T @ np.array(x["X"])).tolist())
    v = e.arr(x["t"])
    R = e.arr(x["R"])
    return (
        rg.vech(A), rg.unvech(e.arr(np.array(x["X"]).ravel()[:6])), rg.skew3(v), rg.lift3(v), rg.box_vertices(e.arr(np.abs(x["t"]))),
        rg.transform_matrix(R, v), rg.transform_matrix_inv(R, v), rg.contact_jacobian(v), rg.H2I(A), rg.I2H(A), rg.clean_transform(R, v),
        rg.compute_evaluation_times(1.0, 0.3), rg.is_triangular_number(10), rg.allclose_unordered(X, X[::-1].copy()),
    )


@op("util_hull", ANY, g_mat)
def _(e, o, x):
    P = np.vstack([x["X"], np.mean(x["X"], axis=0), np.array(x["X"]) @ np.array(x["R"])])
    return rg.convex_hull(e.arr(P)), rg.convex_hull(e.arr(P[:1]))


@op("util_hull_coarse", ANY, lambda r, p, i: dict(g_mat(r, p, i), rcond=r.choice([0.3, 0.1, 1e-3])))
def _(e, o, x):
    return rg.convex_hull(e.arr(x["X"]), rcond=x["rcond"])


@op("util_build", ANY, g_mat, new=True)
def _(e, o, x):
    return rg.Box.from_points_to_bound(e.arr(x["X"]))


@op("util_build2", ANY, g_mat, new=True)
def _(e, o, x):
    return rg.Box.from_two_vertices(e.arr(x["X"][0]), e.arr(x["X"][1]))


@op("util_halfspaces", ANY, g_mat, new=True)
def _(e, o, x):
    t = np.abs(np.array(x["t"])) + 0.2
    A = np.vstack([np.eye(3), -np.eye(3)]) @ np.array(x["R"]).T
    return rg.ConvexPolyhedron.from_halfspaces(e.arr(A), e.arr(np.concatenate([t, t])))


def g_ctor(rng, pool, i):
    return dict(g_mat(rng, pool, i), which=rng.randrange(21), bare=rng.random() < 0.3)


@op("ctor", ANY, g_ctor, new=True)
def _(e, o, x):
    X, t, R = np.array(x["X"]), np.array(x["t"]), x["R"]
    h = np.abs(t) + 0.3
    k = x["which"]
    if k == 0:
        return rg.Ellipsoid.from_shape_matrix(e.arr((X.T @ X + np.eye(3)).tolist()), center=e.arr(t))
    if k == 1:
        S = X.T @ X + np.eye(3)
        return rg.Ellipsoid.from_affine(e.arr(S), e.arr(t))
    if k == 2:
        return rg.Ellipsoid.sphere(0.7, center=e.arr(t))
    if k == 3:
        return rg.FaceForm(A_ineq=e.arr(np.vstack([np.eye(3), -np.eye(3)])), b_ineq=e.arr(np.ones(6)), A_eq=e.arr(X[:1]), b_eq=e.arr([0.1]))
    if k == 4:
        return rg.SpanForm(vertices=e.arr(X), rays=e.arr(np.abs(X[:1]) + 0.1))
    if k == 5:
        return rg.ConvexPolyhedron(span_form=rg.SpanForm(vertices=e.arr(X)))
    if k == 6:
        return rg.ConvexPolyhedron(face_form=rg.FaceForm(A_ineq=e.arr(np.vstack([np.eye(3), -np.eye(3)])), b_ineq=e.arr(np.concatenate([h, h]))))
    if k == 7:
        return rg.Cylinder(length=h[0], radius=h[1], rotation=e.arr(R), center=e.arr(t)).capsule()
    if k == 8:
        b = rg.Box(e.arr(h), rotation=e.arr(R), center=e.arr(t))
        return rg.RigidBody(b) if x["bare"] else rg.RigidBody(e.lst([b, rg.Ellipsoid(e.arr(h))]), params=b.uniform_density_params(1.0))
    if k == 9:
        return rg.InertialParameters(mass=1.0, com=e.arr(t), H=e.arr(X.T @ X + np.outer(t, t)))
    if k == 10:
        return rg.InertialParameters(mass=2.0, h=e.arr(t), I=e.arr(np.trace(X.T @ X) * np.eye(3) - X.T @ X))
    if k == 11:
        return rg.SV.from_vec(e.arr(np.concatenate([t, h])))
    if k == 12:
        A = np.vstack([np.eye(3), -np.eye(3)])
        return rg.ConvexPolyhedron.from_halfspaces(e.arr(A), e.arr(np.concatenate([h, h])), prune=x["bare"])
    if k == 13:
        return rg.ConvexPolyhedron.from_vertices(e.arr(np.vstack([X, X.mean(axis=0)])), prune=True)
    if k == 14:
        return rg.Box.from_side_lengths(e.arr(h), center=e.arr(t), rotation=e.arr(R))
    if k == 15:
        return rg.Box.cube(h[0], center=e.arr(t), rotation=e.arr(R))
    if k == 16:
        return rg.InertialParameters.from_point_masses(e.arr(np.concatenate([h, h[:1]])), e.arr(X))
    if k == 17:
        return rg.InertialParameters.from_vec(e.arr(np.concatenate([[2.0], t, rg.vech(np.trace(X.T @ X) * np.eye(3) - X.T @ X)])))
    if k == 18:
        return rg.SpanForm(vertices=e.arr(X), span=e.arr(X[:1]))
    if k == 19:
        return rg.ConvexPolyhedron.simplex(e.arr(h))
    return rg.Ellipsoid(e.arr(h[:2]), rotation=e.arr(geom_rot2(t[0])), center=e.arr(t[:2]))


def geom_rot2(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


@op("repr", SHAPES3 + ("params", "span", "face", "pol", "mm", "sv"), g_none)
def _(e, o, x):
    # the digits shown depend on the process-wide print options
    t = repr(o)
    return t.split("(")[0] if "(" in t else len(t) > 0


@op("util_vech", ANY, lambda r, p, i: {"n": r.choice([1, 1, 2, 3, 4]), "x": [r.gauss(0, 1) for _ in range(10)]})
def _(e, o, x):
    n = x["n"]
    a = np.array(x["x"][: n * (n + 1) // 2])
    A = rg.unvech(e.arr(a))
    return A, rg.vech(e.arr(np.array(A))), rg.vech(e.arr(np.array(A)), k=1), rg.box_vertices(e.arr(np.abs(x["x"][:n])))


@op("util_unvech", ANY, lambda r, p, i: {"n": r.choice([1, 1, 2, 3, 4]), "x": [r.gauss(0, 1) for _ in range(10)]}, new=True)
def _(e, o, x):
    return rg.unvech(e.arr(x["x"][: x["n"] * (x["n"] + 1) // 2]))


@op("util_box_vertices", ANY, lambda r, p, i: {"x": numbers(r, r.randint(1, 4))}, new=True)
def _(e, o, x):
    return rg.box_vertices(e.arr(np.abs(x["x"])))


@op("util_lin2", ANY, g_mat, new=True)
def _(e, o, x):
    """Matrices built from vectors; a caller may go on working on either."""
    v, R = e.arr(x["t"]), e.arr(x["R"])
    return rg.skew3(v), rg.lift3(v), rg.transform_matrix(R, v), rg.transform_matrix_inv(R, v), list(rg.clean_transform(R, v)), rg.contact_jacobian(v)


@op("util_rmse", ANY, g_mat)
def _(e, o, x):
    Y = np.outer(np.array(x["X"]).ravel()[:12], np.arange(1.0, 11)).reshape(2, 6, 10)
    return float(rg.validation_rmse(e.arr(Y), e.arr(np.array(x["X"]).ravel().reshape(2, 6)), e.arr(np.linspace(-1, 1, 10))))


@op("util_mbe_ells", ANY, g_mat, tol=1e-4, solver=True)
def _(e, o, x):
    E = [rg.Ellipsoid(np.abs(x["t"]) + 0.3 + 0.1 * k, rotation=np.array(x["R"]), center=np.array(x["X"][k])) for k in range(3)]
    return ("E", *_ellq(rg.mbe_of_ellipsoids(e.lst(E), solver=e.solver)))


def rigeo_mie(*a, **k):
    from rigeo.shape.ellipsoid import mie_inequality_form

    return mie_inequality_form(*a, **k)


@op("util_mie", ANY, g_mat, tol=1e-4, solver=True)
def _(e, o, x):
    A = np.vstack([np.eye(3), -np.eye(3)]) @ np.array(x["R"]).T
    return ("E", *_ellq(rigeo_mie(e.arr(A), e.arr(np.tile(np.abs(x["t"]) + 0.2, 2)), solver=e.solver)))


@op("util_mbe_thin", ANY, lambda r, p, i: {"h": 10 ** r.uniform(-2.5, -1), "rcond": r.choice([None, None, 0.2]), "R": geom.rot3(r).tolist()}, tol=1e-4, solver=True)
def _(e, o, x):
    """With a coarse rcond a flat set of points counts as flat."""
    P = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, x["h"]]]) @ np.array(x["R"]).T
    from rigeo.shape import mbe_of_points

    kw = {} if x["rcond"] is None else {"rcond": x["rcond"]}
    return ("E", *_ellq(mbe_of_points(e.arr(P), solver=e.solver, **kw)))


@op("util_cons", ANY, g_mat)
def _(e, o, x):
    J, c = rg.pim_must_equal_param_var(cp.Variable(10), eps=0.1)
    return c, rg.pim_sum_vec_matrices()


@op("util_mbe", ANY, g_mat, tol=1e-4, solver=True)
def _(e, o, x):
    from rigeo.shape import mbe_of_points

    P = np.vstack([x["X"], np.array(x["X"]) + [2.0, 0.3, -0.4]])
    return ("E", *_ellq(mbe_of_points(e.arr(P), solver=e.solver)))


@op("rand_fns", ANY, g_seed, rand=True)
def _(e, o, x):
    n = x["n"] if isinstance(x["n"], int) and x["n"] > 0 else 3
    which = x["seed"] % 5
    if which == 0:
        return rg.random_psd_matrix(3, rng=e.rng)
    if which == 1:
        return rg.random_weight_vectors((n, 4), rng=e.rng)
    if which == 2:
        return rg.random_points_on_hypersphere(shape=n, dim=2, rng=e.rng)
    if which == 3:
        return rg.random_points_in_ball(shape=n, dim=3, rng=e.rng)
    return rg.SV.random_diag_normal(rg.SV(linear=[0, 1, 2], angular=[1, 1, 1]), rg.SV(linear=[1, 1, 1], angular=[1, 2, 1]), rng=e.rng)


BY_KIND = {}
for _name, _o in OPS.items():
    for _k in _o["kinds"]:
        BY_KIND.setdefault(_k, []).append(_name)


def gen_target(rng, i):
    """A pool and one operation that fits it: run ``i`` targets operation i modulo
    the catalogue, so that every operation is met equally often."""
    # free functions need no particular host
    pairs = sorted((n, k) for n, d in OPS.items() for k in (d["kinds"] if d["kinds"] is not ANY else ("box",)))
    name, k0 = pairs[i % len(pairs)]
    d = OPS[name]
    for attempt in range(400):
        k = k0 if attempt < 100 else d["kinds"][rng.randrange(len(d["kinds"]))]
        pool = []
        if k == "body":
            pool = [geom.gen_shape(rng, ("box", "ell", "cyl")), gen_params(rng)]
        want = rng.choice([1, 2])
        for _ in range(600):
            o = gen_obj(rng, pool)
            if o["k"] == k and (o["k"] not in SHAPES3 or geom.M(o).dim == 3 or rng.random() < 0.3):
                pool.append(o)
                want -= 1
                if not want:
                    break
        idx = [j for j, s in enumerate(pool) if s["k"] == k]
        if attempt > 5:
            # it needs partners of another kind
            pool += [gen_params(rng), gen_focus(rng, "pol")[-1], geom.gen_shape(rng, ("box", "ell", "cyl"))]
        if not idx:
            continue
        j = rng.choice(idx)
        x = d["gen"](rng, pool, j)
        if x is not None:
            return pool, {"op": name, "i": j, "x": x}
    raise RuntimeError(name)


KINDS = ("box", "ell", "cyl", "cap", "poly", "simplex", "params", "body", "span", "face", "pol", "mm", "sv")


def gen_focus(rng, k=None):
    """A small pool built around one object of a uniformly chosen kind."""
    k = k or rng.choice(KINDS)
    pool = []
    while True:
        if k == "body" and not pool:
            pool = [geom.gen_shape(rng, ("box", "ell", "cyl")), gen_params(rng)]
        o = gen_obj(rng, pool)
        if o["k"] == k:
            pool.append(o)
            return pool


def gen_op(rng, pool, rand=False, solver=0.15, heavy=0.3, only=None, new=None):
    """A random operation on a random pool member; None when nothing fits."""
    for _ in range(60):
        i = rng.randrange(len(pool))
        k = pool[i]["k"]
        if k == "derived":
            continue
        names = BY_KIND.get(k)
        if not names:
            continue
        name = rng.choice(names)
        o = OPS[name]
        if bool(o["rand"]) != rand:
            continue
        if only is not None and name not in only:
            continue
        if o["solver"] and rng.random() > solver:
            continue
        if o["heavy"] and rng.random() > heavy:
            continue
        if new is not None and o["new"] != new:
            continue
        x = o["gen"](rng, pool, i)
        if x is None:
            continue
        return {"op": name, "i": i, "x": x}
    return None


def apply(op_, env):
    o = OPS[op_["op"]]
    try:
        return o["fn"](env, env.objs[op_["i"]], op_["x"])
    except BaseException as e:
        if type(e).__name__ != "PanicException":
            raise
        # Clarabel gave up on a badly conditioned problem in its own way
        raise RuntimeError("solver panic") from None


def tol_of(op_):
    return OPS[op_["op"]]["tol"]


def needs(op_):
    """Pool indices an operation touches."""
    out = [op_["i"]]
    if "j" in op_["x"]:
        out.append(op_["x"]["j"])
    return out


def closure(pool, idx):
    """Indices plus everything they are built from."""
    out = []

    def add(i):
        if i in out:
            return
        s = pool[i]
        if s["k"] == "body":
            for j in s["s"] + ([s["p"]] if s["p"] is not None else []):
                add(j)
        out.append(i)

    for i in idx:
        add(i)
    return sorted(out)


def build_pool(pool, idx=None, reg=lambda a: a):
    """Live objects (None where not requested)."""
    objs = [None] * len(pool)
    for i in sorted(range(len(pool)) if idx is None else closure(pool, idx)):
        objs[i] = build_obj(pool[i], objs, reg)
    return objs


PROBE_PTS = np.random.RandomState(5).normal(size=(12, 6)) * 1.2


def probe(o):
    """Behaviour fingerprint of one object through cheap public queries."""
    out = [canon(o)]
    if isinstance(o, (rg.Box, rg.ConvexPolyhedron, rg.Ellipsoid, rg.Cylinder, rg.Capsule)):
        d = getattr(o, "dim", 3)
        c = np.asarray(o.vertices).mean(axis=0) if isinstance(o, rg.ConvexPolyhedron) and not isinstance(o, rg.Box) else np.asarray(o.center)
        P = c + PROBE_PTS[:, :d]
        out.append(canon(np.asarray(o.contains(P))))
        out.append(canon(np.asarray(o.contains(c + 0.05 * PROBE_PTS[:, :d]))))
        if d == 3:
            out.append(canon(np.asarray(o.aabb().vertices)))
            V = cp.Variable(3)
            out.append(canon(o.must_contain(V)))
            g = np.random.Generator(np.random.PCG64(3))
            out.append(canon(np.asarray(o.random_points(2, rng=g))))
        if isinstance(o, rg.Cylinder):
            out.append(canon((o.endpoints(), o.volume, o.uniform_density_params(1.3))))
        if isinstance(o, rg.Ellipsoid):
            out.append(canon((o.rank, o.E)))
            if not o.is_degenerate():
                out.append(canon(o.Q))
            elif d == 3:
                out.append(canon(o.moment_constraints(cp.Variable(10))))
            if d == 3:
                out.append(canon(o.uniform_density_params(1.3)))
        if isinstance(o, rg.Box):
            out.append(canon((o.volume, o.side_lengths, o.uniform_density_params(1.3))))
        if isinstance(o, rg.ConvexPolyhedron):
            out.append(canon((o.nv, o.nf)))
    elif isinstance(o, rg.InertialParameters):
        out.append(canon((o.vec, o.J, o.M, o.Hc)))
    elif isinstance(o, rg.RigidBody):
        out.append([probe(s) for s in o.shapes])
        out.append(canon(o.params.J))
    elif isinstance(o, rg.SpanForm):
        out.append(canon((o.nv, o.nr, o.dim, o.to_face_form())))
    elif isinstance(o, rg.FaceForm):
        out.append(canon((o.nf, o.dim, o.to_span_form())))
    elif isinstance(o, rg.Polynomial):
        n = len(next(iter(o.coefficients)).value)
        out.append(canon((o.degree, o.evaluate(PROBE_PTS[0, :n]))))
    elif isinstance(o, rg.MomentMatrix):
        out.append(canon((o.r, str(o))))
    elif isinstance(o, rg.SpatialVector):
        out.append(canon((o.linear, o.angular, o.adjoint())))
    return out
