"""Shape specifications (plain data), builders and an independent geometry
oracle that never calls rigeo."""
import math

import numpy as np
import scipy.spatial
import scipy.optimize

from world import rg

EPS_ZERO = 0.0


# ------------------------------------------------------------ random spec data
def rot3(rng):
    """Random rotation from four Gaussians (a plan-level random.Random)."""
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def rot(rng, dim):
    if dim == 1:
        return np.eye(1)
    if dim == 3:
        return rot3(rng)
    A = np.array([[rng.gauss(0, 1) for _ in range(dim)] for _ in range(dim)])
    Q, Rr = np.linalg.qr(A)
    Q = Q * np.sign(np.diag(Rr))
    if np.linalg.det(Q) < 0:
        Q[:, 0] = -Q[:, 0]
    return Q


AXIS_ROTS = None


def axis_rot(rng):
    """One of the 24 axis-permuting rotations."""
    global AXIS_ROTS
    if AXIS_ROTS is None:
        import itertools

        out = []
        for p in itertools.permutations(range(3)):
            for s in itertools.product([1, -1], repeat=3):
                M = np.zeros((3, 3))
                for i in range(3):
                    M[i, p[i]] = s[i]
                if np.linalg.det(M) > 0:
                    out.append(M)
        AXIS_ROTS = out
    return AXIS_ROTS[rng.randrange(24)]


def gen_rot(rng, dim=3):
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.35 and dim == 3:
        return axis_rot(rng).tolist()
    if r < 0.5 and dim == 3:
        return odd_rot(rng).tolist()
    return rot(rng, dim).tolist()


def odd_rot(rng):
    """Rotations that a shortcut might mistake for simpler ones: tiny ones, half and third turns about any axis, and their
    products with axis permutations."""
    q = rng.random()
    if q < 0.35:
        R = small_rot(rng, lo=-5)
    else:
        u = np.array([rng.gauss(0, 1) for _ in range(3)])
        if q < 0.5:
            u[rng.randrange(3)] = 0.0
        u /= np.linalg.norm(u)
        a = rng.choice([math.pi, math.pi, 2 * math.pi / 3, math.pi / 2])
        K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
        R = np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * (K @ K)
    if rng.random() < 0.3:
        R = axis_rot(rng) @ R
    return R


def gen_center(rng, dim=3, far=True):
    r = rng.random()
    if r < 0.15:
        return None
    s = 10.0 if (far and r < 0.3) else 1.0
    return [s * rng.uniform(-1, 1) for _ in range(dim)]


def gen_ext(rng, lo=0.2, hi=2.0):
    r = rng.random()
    if r < 0.15:
        return rng.choice([0.25, 0.5, 1.0, 1.5, 2.0])
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def stretch(rng, spec):
    """Make a shape very long, thin, small or large."""
    f = 10 ** rng.uniform(-2, 1.5)
    for key in ("he", "l", "r"):
        v = spec.get(key)
        if v is None or rng.random() < 0.4:
            continue
        if isinstance(v, list):
            spec[key] = [x * f if rng.random() < 0.6 else x for x in v]
        else:
            spec[key] = v * f
    return spec


def gen_box(rng, thin=True):
    he = [gen_ext(rng) for _ in range(3)]
    if thin and rng.random() < 0.2:
        he[rng.randrange(3)] = rng.choice([0.005, 0.02])
    if rng.random() < 0.2:
        he = [he[0]] * 3
        if rng.random() < 0.4:
            return {"k": "box", "he": he, "c": gen_center(rng), "R": None}
    return {"k": "box", "he": he, "c": gen_center(rng), "R": gen_rot(rng)}


def gen_ell(rng, dims=(3,), degenerate=0.0):
    dim = rng.choice(list(dims))
    he = [gen_ext(rng) for _ in range(dim)]
    if rng.random() < 0.15:
        he = [he[0]] * dim
    if dim > 1 and rng.random() < degenerate:
        for i in rng.sample(range(dim), rng.choice([1, 1, 2]) if dim > 2 else 1):
            he[i] = rng.choice([0.0, 0.0, 0.0, 1e-9])
    return {"k": "ell", "he": he, "c": gen_center(rng, dim), "R": gen_rot(rng, dim)}


def gen_cyl(rng):
    return {"k": "cyl", "l": gen_ext(rng), "r": gen_ext(rng, 0.2, 1.5), "c": gen_center(rng), "R": gen_rot(rng)}


def gen_cap(rng):
    s = gen_cyl(rng)
    s["k"] = "cap"
    return s


def gen_poly(rng, dim=3, nmax=9, flat=0.0):
    """Vertices in convex position (on an ellipsoid) so that they are all extremal."""
    n = rng.randint(dim + 1, nmax)
    for _ in range(50):
        V = np.array([[rng.gauss(0, 1) for _ in range(dim)] for _ in range(n)])
        V /= np.linalg.norm(V, axis=1)[:, None]
        V = V * np.array([gen_ext(rng, 0.4, 1.5) for _ in range(dim)])
        if rng.random() < flat and dim == 3:
            V = V[:, :2]
            if n < 3:
                continue
            V /= np.maximum(np.linalg.norm(V, axis=1)[:, None], 1e-3)
        try:
            hull = scipy.spatial.ConvexHull(V)
        except Exception:
            continue
        if len(hull.vertices) != len(V) or hull.volume < 0.05:
            continue
        D = scipy.spatial.distance.pdist(V)
        if D.min() < 0.05:
            continue
        if V.shape[1] < dim:
            V = np.hstack([V, np.zeros((len(V), dim - V.shape[1]))])
        R = gen_rot(rng, dim)
        c = gen_center(rng, dim, far=False)
        if R is not None:
            V = V @ np.array(R).T
        if c is not None:
            V = V + np.array(c)
        return {"k": "poly", "V": V.tolist()}
    return {"k": "poly", "V": np.vstack([np.zeros(dim), np.eye(dim)]).tolist()}


def gen_simplex(rng, dim=3):
    return {"k": "simplex", "e": [gen_ext(rng) for _ in range(dim)]}


def gen_shape(rng, kinds=("box", "ell", "cyl", "cap", "poly"), degenerate=0.0):
    k = rng.choice(list(kinds))
    if k == "box":
        return gen_box(rng)
    if k == "ell":
        return gen_ell(rng, degenerate=degenerate)
    if k == "cyl":
        return gen_cyl(rng)
    if k == "cap":
        return gen_cap(rng)
    if k == "poly":
        return gen_poly(rng)
    if k == "simplex":
        return gen_simplex(rng)
    raise ValueError(k)


# ------------------------------------------------------------------ data model
class M:
    """Model of a shape: numpy data only."""

    def __init__(self, spec):
        self.k = spec["k"]
        k = self.k
        if k in ("box", "ell"):
            self.he = np.array(spec["he"], dtype=float)
            self.dim = len(self.he)
        elif k in ("cyl", "cap"):
            self.l = float(spec["l"])
            self.r = float(spec["r"])
            self.dim = 3
        elif k == "poly":
            self.V = np.array(spec["V"], dtype=float)
            self.dim = self.V.shape[1]
        elif k == "simplex":
            e = np.array(spec["e"], dtype=float)
            self.k = "poly"
            self.dim = len(e)
            self.V = np.vstack([np.zeros(self.dim), np.diag(e)])
        else:
            raise ValueError(k)
        if self.k != "poly":
            self.R = np.eye(self.dim) if spec.get("R") is None else np.array(spec["R"], dtype=float)
            self.c = np.zeros(self.dim) if spec.get("c") is None else np.array(spec["c"], dtype=float)
        for T in spec.get("via", []):
            self.move(T)

    def copy(self):
        m = object.__new__(M)
        m.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})
        m.__dict__.pop("_hull", None)
        return m

    def move(self, T):
        R = np.eye(self.dim) if T.get("R") is None else np.array(T["R"], dtype=float)
        t = np.zeros(self.dim) if T.get("t") is None else np.array(T["t"], dtype=float)
        if T.get("about_center"):
            self.R = R @ self.R
            return self
        if self.k == "poly":
            self.V = self.V @ R.T + t
            self.__dict__.pop("_hull", None)
        else:
            self.R = R @ self.R
            self.c = R @ self.c + t
        return self

    # characteristic lengths for tolerances
    @property
    def scale(self):
        if self.k in ("box", "ell"):
            return 1.0 + float(np.max(self.he)) + float(np.linalg.norm(self.c))
        if self.k in ("cyl", "cap"):
            return 1.0 + self.l + self.r + float(np.linalg.norm(self.c))
        return 1.0 + float(np.max(np.abs(self.V)))

    def ends(self):
        a = self.R[:, 2] * self.l / 2
        return self.c + a, self.c - a

    def hull(self):
        """(origin, basis of the affine hull, normal offsets in it, basis of its complement)."""
        if not hasattr(self, "_hull"):
            V = self.V
            o = V.mean(axis=0)
            U, s, Wt = np.linalg.svd(V - o, full_matrices=True)
            tol = 1e-9 * max(1.0, s[0] if len(s) else 1.0)
            rk = int(np.sum(s > tol))
            B = Wt[:rk].T
            N = Wt[rk:].T
            P = (V - o) @ B
            if rk == 0:
                eq = np.zeros((0, 1))
            elif rk == 1:
                eq = np.array([[1.0, -P.max()], [-1.0, P.min()]])
            else:
                eq = scipy.spatial.ConvexHull(P).equations
            self._hull = (o, B, eq, N)
        return self._hull

    def viol(self, P):
        """How far outside each point is (a distance-like measure; <= 0 inside)."""
        P = np.atleast_2d(np.asarray(P, dtype=float))
        k = self.k
        if k == "poly":
            o, B, eq, N = self.hull()
            Q = (P - o) @ B
            out = np.full(len(P), -np.inf)
            if eq.shape[0]:
                out = np.max(Q @ eq[:, :-1].T + eq[:, -1], axis=1)
            if N.shape[1]:
                out = np.maximum(out, np.max(np.abs((P - o) @ N), axis=1))
            return out
        q = (P - self.c) @ self.R
        if k == "box":
            return np.max(np.abs(q) - self.he, axis=1)
        if k == "ell":
            z = self.he < 1e-8
            out = np.full(len(P), -np.inf)
            if z.any():
                out = np.max(np.abs(q[:, z]), axis=1)
            if (~z).any():
                h = self.he[~z]
                g = np.sqrt(np.sum((q[:, ~z] / h) ** 2, axis=1))
                out = np.maximum(out, (g - 1.0) * np.min(h))
            return out
        rxy = np.hypot(q[:, 0], q[:, 1])
        if k == "cyl":
            return np.maximum(rxy - self.r, np.abs(q[:, 2]) - self.l / 2)
        if k == "cap":
            dz = np.maximum(np.abs(q[:, 2]) - self.l / 2, 0)
            return np.hypot(rxy, dz) - self.r
        raise ValueError(k)

    def surf(self, P):
        """Distance-like residual of being on the surface."""
        P = np.atleast_2d(P)
        v = self.viol(P)
        return np.abs(v)

    def edge(self, P):
        """Residual of being on a box edge: two coordinates extreme, third inside."""
        q = np.abs((np.atleast_2d(P) - self.c) @ self.R)
        d = np.sort(np.abs(q - self.he), axis=1)
        return np.maximum(d[:, 1], np.max(q - self.he, axis=1))

    def local(self, P):
        return (np.atleast_2d(P) - self.c) @ self.R

    def support(self, d):
        """max over the shape of <d, x>."""
        d = np.asarray(d, dtype=float)
        k = self.k
        if k == "poly":
            return float(np.max(self.V @ d))
        u = self.R.T @ d
        if k == "box":
            return float(self.c @ d + np.sum(self.he * np.abs(u)))
        if k == "ell":
            return float(self.c @ d + np.linalg.norm(self.he * u))
        if k == "cyl":
            return float(self.c @ d + self.r * np.hypot(u[0], u[1]) + self.l / 2 * abs(u[2]))
        if k == "cap":
            return float(self.c @ d + self.r * np.linalg.norm(u) + self.l / 2 * abs(u[2]))
        raise ValueError(k)

    def support_point(self, d):
        """A point of the shape with the largest <d, x>."""
        d = np.asarray(d, dtype=float)
        k = self.k
        if k == "poly":
            return self.V[int(np.argmax(self.V @ d))]
        u = self.R.T @ d
        if k == "box":
            q = self.he * np.sign(u)
        elif k == "ell":
            q = self.he**2 * u / max(np.linalg.norm(self.he * u), 1e-300)
        else:
            z = np.array([0.0, 0.0, np.sign(u[2]) * self.l / 2])
            w = u / max(np.linalg.norm(u), 1e-300) if k == "cap" else np.array([u[0], u[1], 0.0]) / max(np.hypot(u[0], u[1]), 1e-300)
            q = z + self.r * w
        return self.c + self.R @ q

    def sample(self, g, n):
        """n points inside (numpy Generator g); not uniform for polys."""
        k = self.k
        if k == "poly":
            w = g.dirichlet(np.ones(len(self.V)) * 0.7, size=n)
            return w @ self.V
        if k == "box":
            q = g.uniform(-1, 1, size=(n, 3)) * self.he
        elif k == "ell":
            x = g.normal(size=(n, self.dim))
            x /= np.linalg.norm(x, axis=1)[:, None]
            q = x * g.random((n, 1)) ** (1.0 / self.dim) * self.he
        else:
            th = g.uniform(0, 2 * np.pi, n)
            rr = self.r * np.sqrt(g.random(n))
            q = np.stack([rr * np.cos(th), rr * np.sin(th), g.uniform(-0.5, 0.5, n) * self.l], axis=1)
            if k == "cap":
                m = g.random(n) < 0.4
                x = g.normal(size=(n, 3))
                x /= np.linalg.norm(x, axis=1)[:, None]
                x *= self.r * g.random((n, 1)) ** (1 / 3)
                x[:, 2] += np.sign(g.random(n) - 0.5) * self.l / 2
                q[m] = x[m]
        return q @ self.R.T + self.c

    def boundary_probe(self, g, n):
        """Points just inside / just outside the boundary, with the sign known."""
        d = g.normal(size=(n, self.dim))
        d /= np.linalg.norm(d, axis=1)[:, None]
        o = self.V.mean(axis=0) if self.k == "poly" else self.c
        # bisect along rays from the centre
        lo = np.zeros(n)
        hi = np.full(n, 4 * self.scale + 10)
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            ins = self.viol(o + d * mid[:, None]) <= 0
            lo = np.where(ins, mid, lo)
            hi = np.where(ins, hi, mid)
        return o, d, lo

    def volume(self):
        if self.k == "poly":
            o, B, eq, N = self.hull()
            return 0.0 if N.shape[1] else float(scipy.spatial.ConvexHull(self.V).volume)
        if self.k == "box":
            return float(8 * np.prod(self.he))
        if self.k == "ell":
            return float(math.pi ** (self.dim / 2) / math.gamma(self.dim / 2 + 1) * np.prod(self.he))
        v = math.pi * self.r**2 * self.l
        return v if self.k == "cyl" else v + 4 / 3 * math.pi * self.r**3

    def center(self):
        return self.V.mean(axis=0) if self.k == "poly" else self.c

    def spec(self):
        if self.k == "poly":
            return {"k": "poly", "V": self.V.tolist()}
        out = {"k": self.k, "R": self.R.tolist(), "c": self.c.tolist()}
        if self.k in ("box", "ell"):
            out["he"] = self.he.tolist()
        else:
            out["l"], out["r"] = self.l, self.r
        return out


def arr(x, reg=None):
    if x is None:
        return None
    a = np.array(x, dtype=float)
    if reg is not None:
        a = reg(a)
    return a


def build(spec, reg=None):
    """Construct the rigeo object. ``reg`` sees every caller-owned array."""
    k = spec["k"]
    R, c = arr(spec.get("R"), reg), arr(spec.get("c"), reg)
    if k == "box":
        s = rg.Box(arr(spec["he"], reg), center=c, rotation=R)
    elif k == "ell":
        s = rg.Ellipsoid(half_extents=arr(spec["he"], reg), rotation=R, center=c)
    elif k == "cyl":
        s = rg.Cylinder(length=spec["l"], radius=spec["r"], rotation=R, center=c)
    elif k == "cap":
        s = rg.Cylinder(length=spec["l"], radius=spec["r"], rotation=R, center=c).capsule()
    elif k == "poly":
        s = rg.ConvexPolyhedron.from_vertices(arr(spec["V"], reg))
    elif k == "simplex":
        s = rg.ConvexPolyhedron.simplex(arr(spec["e"], reg))
    else:
        raise ValueError(k)
    for T in spec.get("via", []):
        if T.get("about_center"):
            s = s.rotate_about_center(arr(T["R"], reg))
        else:
            s = s.transform(rotation=arr(T.get("R"), reg), translation=arr(T.get("t"), reg))
    return s


def small_rot(rng, lo=-7):
    """A rotation by a small angle about a random or a coordinate axis."""
    a = 10 ** rng.uniform(lo, -1.5) * rng.choice([1, -1])
    u = np.array([rng.gauss(0, 1) for _ in range(3)]) if rng.random() < 0.6 else np.eye(3)[rng.randrange(3)]
    u = u / np.linalg.norm(u)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def gen_T(rng, dim=3, far=False, small=0.0):
    if small and dim == 3 and rng.random() < small:
        d = 10 ** rng.uniform(-7, -1)
        return {"R": small_rot(rng).tolist() if rng.random() < 0.8 else None, "t": [rng.gauss(0, d) for _ in range(3)] if rng.random() < 0.8 else None}
    r = rng.random()
    T = {"R": gen_rot(rng, dim), "t": gen_center(rng, dim, far=far)}
    if r < 0.1:
        T["R"] = None
    elif r < 0.2:
        T["t"] = None
    return T


def add_via(rng, spec, p=0.4, n=2):
    """Sometimes place the shape through transform() calls instead of the constructor."""
    if rng.random() < p:
        via = []
        for _ in range(rng.randint(1, n)):
            dim = M(spec).dim
            if spec["k"] in ("box", "ell") and rng.random() < 0.25:
                via.append({"R": rot(rng, dim).tolist(), "about_center": True})
            else:
                via.append(gen_T(rng, dim))
        spec["via"] = via
    return spec


def fit(model, obj):
    """How far the rigeo object's public geometry is from the model (0 = equal)."""
    k = model.k
    if k == "poly":
        V = np.asarray(obj.vertices)
        if V.shape[1] != model.dim:
            return np.inf
        if len(V) == 0:
            return np.inf
        D = scipy.spatial.distance.cdist(V, model.V)
        return float(max(D.min(axis=1).max(), D.min(axis=0).max()))
    c = np.asarray(obj.center)
    R = np.asarray(obj.rotation)
    e = float(np.max(np.abs(c - model.c)))
    if k in ("box", "ell"):
        H = np.asarray(obj.half_extents)
        if H.shape != model.he.shape:
            return np.inf
        # compare the second-moment shape, which is unaffected by axis conventions
        e = max(e, float(np.max(np.abs(R * H**2 @ R.T - model.R * model.he**2 @ model.R.T))))
        e = max(e, float(np.max(np.abs(np.sort(H) - np.sort(model.he)))))
        if k == "box":
            import itertools

            C = np.array(list(itertools.product([1, -1], repeat=3)))
            D = scipy.spatial.distance.cdist((C * H) @ R.T + c, (C * model.he) @ model.R.T + model.c)
            e = max(e, float(D.min(axis=1).max()), float(D.min(axis=0).max()))
            V = np.asarray(obj.vertices)
            D = scipy.spatial.distance.cdist(V, (C * model.he) @ model.R.T + model.c)
            e = max(e, float(D.min(axis=1).max()), float(D.min(axis=0).max()))
    else:
        cyl = obj.cylinder if k == "cap" else obj
        e = max(e, abs(cyl.length - model.l), abs(cyl.radius - model.r))
        e = max(e, float(np.max(np.abs(np.asarray(cyl.center) - model.c))))
        RR = np.asarray(cyl.rotation)
        a, b = RR[:, 2], model.R[:, 2]
        e = max(e, min(np.max(np.abs(a - b)), np.max(np.abs(a + b))))
    return e


def size_error(model, obj):
    """How far the centre and the sizes alone are from the model, relative to it."""
    if model.k == "poly":
        return 0.0
    if model.k in ("box", "ell"):
        a, b = np.sort(obj.half_extents), np.sort(model.he)
    else:
        cyl = obj.cylinder if model.k == "cap" else obj
        a, b = np.array([cyl.length, cyl.radius]), np.array([model.l, model.r])
    e = float(np.max(np.abs(a - b)) / max(np.max(b), 1e-3))
    c = np.asarray((obj.cylinder if model.k == "cap" else obj).center)
    return max(e, float(np.max(np.abs(c - model.c)) / max(1.0, np.max(np.abs(model.c)))) / 10)


def almost(rng, spec):
    """The same shape up to a difference that is easily rounded away."""
    import copy

    s = copy.deepcopy(spec)
    f = 1 + 10 ** rng.uniform(-8, -4)
    if s["k"] in ("box", "ell"):
        k = rng.randrange(len(s["he"]))
        s["he"][k] *= f
    elif s["k"] in ("cyl", "cap"):
        s[rng.choice(["l", "r"])] *= f
    return s


def make_thin(rng, pool):
    """Flatten some of the ellipsoids and boxes of a pool."""
    for s in pool:
        if s["k"] in ("ell", "box") and len(s["he"]) > 1 and rng.random() < 0.5:
            k = rng.randrange(len(s["he"]))
            s["he"] = [h * 10 ** rng.uniform(-6, -2) if j == k else h for j, h in enumerate(s["he"])]
