"""C02: uniform samplers stay uniform however the campaign is scheduled."""
import math

import numpy as np
import scipy.stats as st

import core
import entropy
import geom
from core import Violation, is_simulated
from simlib import shape_arg, run_tasks
from world import rg

P_MIN = 1e-10

CONFIG = {
    "runs": {"quick": 285, "thorough": 6000},
    "rule": "A run is one sampling campaign: a sampler and region, a total split into calls of generated sizes over 1-3 caller "
    "threads sharing one source with a second, unrelated sampler, plus interrupts and repeats; the pooled points are tested. "
    "Non-trivial: at least two calls.",
    "real": ["rigeo samplers", "numpy PCG64 and distributions"],
    "stub": ["thread scheduler"],
    "assumptions": [
        "a deviation is reported when a test's p-value is below 1e-10; the expected number of false alarms over all seeds of a "
        "thorough run is below 1e-5",
        "relative density errors below about 5 % of a region's mass can go unnoticed at the quick tier",
    ],
    "timeout": 250,
}

OPS = [
    "box", "box", "ell", "ell", "ell_d", "cyl", "cyl", "cap", "union", "union",
    "box_surface", "box_surface", "ell_surface", "ell_surface", "ell_surface2", "box_edges", "box_edges", "ball", "sphere",
]


def gen(rng, tier, i):
    op = OPS[i % len(OPS)]
    total = 24000 if tier == "quick" else 60000
    p = {"op": op}
    if op in ("box", "box_surface", "box_edges"):
        sh = geom.gen_box(rng, thin=False)
    elif op == "ell":
        sh = geom.gen_ell(rng)
    elif op == "ell_d":
        sh = geom.gen_ell(rng, dims=(1, 2, 4))
    elif op == "cyl":
        sh = geom.gen_cyl(rng)
    elif op == "cap":
        sh = geom.gen_cap(rng)
        total //= 2
    elif op == "ell_surface":
        sh = geom.gen_ell(rng)
        total //= 2
    elif op == "ell_surface2":
        sh = geom.gen_ell(rng, dims=(2, 2, 4))
        total //= 2
    elif op == "union":
        total //= 2
        a = geom.gen_shape(rng, ("box", "ell", "cyl", "cap"))
        b = geom.gen_shape(rng, ("box", "ell", "cyl", "cap"))
        a["c"] = [rng.uniform(-0.3, 0.3) for _ in range(3)]
        b["c"] = [a["c"][k] + rng.uniform(-0.6, 0.6) for k in range(3)]
        for s in (a, b):
            if s["k"] in ("box", "ell"):
                s["he"] = [max(h, 0.4) for h in s["he"]]
            else:
                s["r"] = max(s["r"], 0.4)
                s["l"] = max(s["l"], 0.5)
        p["shapes"] = [a, b]
        sh = None
    else:
        sh = None
        p["dim"] = rng.choice([1, 2, 3, 3, 4]) if op == "ball" else rng.choice([1, 2, 2, 3])
    if sh is not None:
        if sh["k"] in ("box", "ell"):
            sh["he"] = [min(max(h, 0.25), 1.8) for h in sh["he"]]
        p["shape"] = geom.add_via(rng, sh, 0.3)
    # split the total into calls
    style = rng.choice(["one", "big", "mixed", "mixed", "small", "tuples"])
    if op in ("box_surface", "box_edges") and rng.random() < 0.35:
        style = "small"
    few = rng.choice([[1, 1, 2, 3, 5, 10], [3, 5, 7], [2, 3, 4], [2, 4, 6, 9], [1, 8, 11]])
    if op in ("ell_surface", "ell_surface2", "union") and rng.random() < 0.3:
        style = "singles"  # many tiny calls: what a rejection loop does between its rounds shows
        if op != "union":
            k = rng.randrange(len(sh["he"]))
            sh["he"] = [h if j == k else rng.choice([0.15, 0.2, 0.3]) for j, h in enumerate(sh["he"])]
            p["shape"] = sh
    sizes = []
    left = total
    if style in ("small", "singles"):
        left = total // (6 if style == "small" or op == "union" else 3)
    while left > 0:
        if style == "one":
            n = left
        elif style == "big":
            n = rng.randint(total // 10, total // 4)
        elif style == "small":
            n = rng.choice(few)
        elif style == "singles":
            n = rng.choice([1, 1, 1, 2])
        elif style == "tuples":
            n = [rng.randint(1, 40), rng.randint(1, 60)]
        else:
            n = rng.choice([1, 2, 7, 30, 100, 300, 1000, 2000])
        k = n if isinstance(n, int) else n[0] * n[1]
        if k > left and isinstance(n, int):
            n = k = left
        sizes.append(n)
        left -= k
    nth = rng.choice([1, 1, 2, 3])
    p["calls"] = sizes
    p["nth"] = nth
    p["seed"] = rng.randrange(1 << 40)
    p["other"] = rng.random() < 0.6
    # some callers hand every call its own seed instead of a shared generator
    p["own"] = rng.random() < 0.3
    s = core.gen_sched(rng, nth + 1)
    s["gran"] = "line"
    s["faults"] = [[rng.randrange(nth), rng.randint(1, 3000), "KeyboardInterrupt"] for _ in range(rng.choice([0, 0, 1, 3]))]
    p["sched"] = s
    return p


# --------------------------------------------------------------- statistics
class Tests:
    def __init__(self, name):
        self.name = name
        self.n = 0

    def chi2(self, what, obs, prob, ref_n=None):
        obs = np.asarray(obs, dtype=float)
        prob = np.asarray(prob, dtype=float)
        n = obs.sum()
        prob = prob / prob.sum()
        # merge rare cells
        o, e = [], []
        ao = ae = 0.0
        for a, b in sorted(zip(obs.ravel(), (prob * n).ravel()), key=lambda t: t[1]):
            ao += a
            ae += b
            if ae >= 25:
                o.append(ao)
                e.append(ae)
                ao = ae = 0.0
        if ae > 0:
            if o:
                o[-1] += ao
                e[-1] += ae
            else:
                return
        if len(o) < 2:
            return
        o, e = np.array(o), np.array(e)
        var = e if ref_n is None else e * (1 + n / ref_n)
        stat = float(np.sum((o - e) ** 2 / var))
        self.report(what, st.chi2.sf(stat, len(o) - 1), f"chi2={stat:.1f} dof={len(o)-1} n={int(n)}")

    def report(self, what, p, info):
        self.n += 1
        if p < P_MIN:
            raise Violation("not-uniform", f"{self.name}: {what}: p={p:.2e} ({info})", test=what)

    def uniforms(self, U, what="u"):
        """U: (n, d) that should be iid uniform on the unit cube."""
        n, d = U.shape
        if n < 200:
            return
        for j in range(d):
            u = U[:, j]
            self.report(f"{what}{j} range", 0.0 if (u.min() < -1e-7 or u.max() > 1 + 1e-7) else 1.0, "outside [0,1]")
            u = np.clip(u, 0, 1)
            h = np.bincount(np.minimum((u * 24).astype(int), 23), minlength=24)
            self.chi2(f"{what}{j} marginal", h, np.ones(24))
            D = st.kstest(u, "uniform")
            self.report(f"{what}{j} KS", D.pvalue, f"D={D.statistic:.4f} n={n}")
            # neighbours in the order the points were drawn
            for lag in (1, 2):
                self.joint(f"{what}{j} lag{lag}", u[:-lag], u[lag:])
        for a in range(d):
            for b in range(a + 1, d):
                self.joint(f"{what}{a}x{what}{b}", U[:, a], U[:, b], 6)
                self.joint(f"{what}{a}x{what}{b} lag1", U[:-1, a], U[1:, b], 5)
        if d >= 3:
            c = np.minimum((np.clip(U[:, :3], 0, 1) * 4).astype(int), 3)
            self.chi2(f"{what} cells", np.bincount(c[:, 0] * 16 + c[:, 1] * 4 + c[:, 2], minlength=64), np.ones(64))

    def joint(self, what, x, y, k=5):
        a = np.minimum((np.clip(x, 0, 1) * k).astype(int), k - 1)
        b = np.minimum((np.clip(y, 0, 1) * k).astype(int), k - 1)
        self.chi2(what, np.bincount(a * k + b, minlength=k * k), np.ones(k * k))

    def spread(self, what, Y, sizes, mean, cov, inflate=None):
        """Do the averages over the calls vary as those of independent points do?

        Y: (n, d), of which every row has the given mean and covariance. Points
        that are spread too evenly (or in clumps) show only here."""
        Y = np.asarray(Y, dtype=float)
        C = np.linalg.inv(np.linalg.cholesky(np.atleast_2d(cov)))
        S = np.vstack([np.zeros(Y.shape[1]), np.cumsum(Y - mean, axis=0)])
        end = np.cumsum(sizes)
        use = sizes >= 12
        if not use.any():
            return
        k = sizes[use].astype(float)
        Z = (S[end[use]] - S[end[use] - sizes[use]]) @ C.T
        var = k if inflate is None else k * (1 + k / inflate)
        stat, dof = float(np.sum(Z**2 / var[:, None])), Z.size
        info = f"{stat:.4g} expected {dof} in {len(k)} calls"
        self.report(f"{what}: averages of the calls too alike", st.chi2.cdf(stat, dof), info)
        self.report(f"{what}: averages of the calls too different", st.chi2.sf(stat, dof), info)

    def counts(self, what, lab, nlab, prob, sizes):
        """The same for how many points of each call fall into each category."""
        prob = np.asarray(prob, dtype=float) / np.sum(prob)
        if prob.min() < 0.01:
            return
        call = np.repeat(np.arange(len(sizes)), sizes)
        O = np.zeros((len(sizes), nlab))
        np.add.at(O, (call, lab), 1)
        use = sizes * prob.min() >= 1.5
        if use.sum() < 12:
            return
        k = sizes[use][:, None].astype(float)
        stat = float(np.sum((O[use] - k * prob) ** 2 / (k * prob)))
        m = (nlab - 1) * use.sum()
        v = 2 * m + float(np.sum((np.sum(1 / prob) - nlab**2 - 2 * nlab + 2) / k))
        # a scaled chi-square variable of this mean and variance
        dof, scale = 2 * m**2 / v, v / (2 * m)
        info = f"{stat:.4g} expected {m} in {use.sum()} calls"
        self.report(f"{what}: counts of the calls too alike", st.chi2.cdf(stat / scale, dof), info)
        if stat > 1.3 * m:
            self.report(f"{what}: counts of the calls too different", st.chi2.sf(stat / scale, dof), info)

    def position(self, what, pos, lab, nlab):
        """Is the position within the batch independent of the category?"""
        pos = np.asarray(pos)
        lab = np.asarray(lab)
        k = 6
        pb = np.minimum((pos * k).astype(int), k - 1)
        T = np.zeros((k, nlab))
        np.add.at(T, (pb, lab), 1)
        T = T[T.sum(axis=1) > 0][:, T.sum(axis=0) > 0]
        if T.shape[0] < 2 or T.shape[1] < 2:
            return
        e = T.sum(axis=1)[:, None] * T.sum(axis=0)[None, :] / T.sum()
        if e.min() < 15:
            keep = e.sum(axis=0).argsort()[::-1][: max(2, nlab // 2)]
            T, e = T[:, keep], e[:, keep]
            e = T.sum(axis=1)[:, None] * T.sum(axis=0)[None, :] / T.sum()
            if e.min() < 15:
                return
        stat = float(np.sum((T - e) ** 2 / e))
        dof = (T.shape[0] - 1) * (T.shape[1] - 1)
        self.report(what, st.chi2.sf(stat, dof), f"chi2={stat:.1f} dof={dof}")


def sphere_uniforms(X):
    """Rosenblatt transform of unit vectors in R^d to d-1 uniforms."""
    n, d = X.shape
    out = []
    rem = np.ones(n)
    for j in range(d - 2):
        m = d - j
        x = np.clip(X[:, j] / np.sqrt(np.maximum(rem, 1e-300)), -1, 1)
        out.append(st.beta.cdf((1 + x) / 2, (m - 1) / 2, (m - 1) / 2))
        rem = rem - X[:, j] ** 2
    if d == 1:
        return np.zeros((n, 0))
    out.append((np.arctan2(X[:, -1], X[:, -2]) / (2 * np.pi)) % 1.0)
    return np.stack(out, axis=1)


def ball_uniforms(Q):
    d = Q.shape[1]
    if d == 1:
        return (Q + 1) / 2
    r = np.linalg.norm(Q, axis=1)
    X = Q / np.maximum(r, 1e-300)[:, None]
    return np.hstack([(r**d)[:, None], sphere_uniforms(X)])


def cap_uniforms(q, l, r):
    z = q[:, 2]
    h = l / 2
    V = math.pi * r**2 * l + 4 / 3 * math.pi * r**3

    def capvol(t):  # volume of the lower hemisphere up to height t above its bottom
        return math.pi * t**2 * (r - t / 3)

    t = np.clip(z + h + r, 0, r)
    F = capvol(t) + math.pi * r**2 * np.clip(z + h, 0, l)
    t2 = np.clip(z - h, 0, r)
    F = F + (2 / 3 * math.pi * r**3 - capvol(r - t2))
    dz = np.maximum(np.abs(z) - h, 0)
    rm2 = np.maximum(r**2 - dz**2, 1e-300)
    u2 = (q[:, 0] ** 2 + q[:, 1] ** 2) / rm2
    return np.stack([F / V, u2, (np.arctan2(q[:, 1], q[:, 0]) / (2 * np.pi)) % 1.0], axis=1)


def spread_order(P):
    return P


# ------------------------------------------------------------------ execution
def do_call(plan, n, obj, objs, box, src):
    op = plan["op"]
    n = shape_arg(n)
    if op in ("box", "ell", "ell_d", "cyl", "cap"):
        return obj.random_points(shape=n, rng=src)
    if op in ("box_surface", "ell_surface", "ell_surface2"):
        return obj.random_points_on_surface(shape=n, rng=src)
    if op == "box_edges":
        return obj.random_points_on_edges(shape=n, rng=src)
    if op == "ball":
        return rg.random_points_in_ball(shape=n, dim=plan["dim"], rng=src)
    if op == "sphere":
        return rg.random_points_on_hypersphere(shape=n, dim=plan["dim"], rng=src)
    return rg.rejection_sample(objs, box, n, rng=src)


def run(plan, ctx):
    op = plan["op"]
    obj = geom.build(plan["shape"]) if "shape" in plan else None
    model = geom.M(plan["shape"]) if "shape" in plan else None
    objs, models, box = None, None, None
    if op == "union":
        objs = [geom.build(s) for s in plan["shapes"]]
        models = [geom.M(s) for s in plan["shapes"]]
        from props.c01 import bounding_box

        lo, hi = bounding_box(models)
        box = rg.Box.from_two_vertices(lo, hi)
    dim = model.dim if model is not None else (3 if op == "union" else plan["dim"] + (op == "sphere"))
    src = np.random.Generator(np.random.PCG64(plan["seed"]))
    nth = plan["nth"]
    base = int(np.random.RandomState(plan["seed"] % (1 << 32)).randint(1 << 31))

    def source(j):
        return base + j if plan.get("own") else src

    order = []  # (call index, batch) in order of completion
    calls = plan["calls"]

    def task(t):
        def body():
            for j in range(t, len(calls), nth):
                for attempt in range(6):
                    try:
                        order.append((j, do_call(plan, calls[j], obj, objs, box, source(j))))
                        break
                    except BaseException as e:
                        if not is_simulated(e):
                            raise
                        core.retrace()
                        ctx.probe("repeated-call")

        return body

    def other():
        b = rg.Box([1.0, 0.5, 0.25])
        e = rg.Ellipsoid([1.0, 0.7, 0.4])
        for k in range(25):
            b.random_points_on_edges(3, rng=src)
            e.random_points(1, rng=src)

    tasks = [task(t) for t in range(nth)] + ([other] if plan["other"] else [])
    run_tasks(tasks, plan["sched"], ctx, budget=30_000_000)
    if len(order) != len(calls):
        raise Violation("lost-call", f"{len(order)} of {len(calls)} calls returned")
    if len(calls) > 1:
        ctx.fault("campaign-split", len(calls))

    Ps, pos, first = [], [], []
    for j, b in order:
        n = calls[j]
        k = n if isinstance(n, int) else int(np.prod(n))
        P = np.asarray(b, dtype=float).reshape(-1, dim)
        if len(P) != k:
            raise Violation("arrangement", f"{op}: call for {n} returned {np.shape(b)}")
        Ps.append(P)
        pos.append((np.arange(k) + 0.5) / k)
        first.append(P[:1])
    P = np.vstack(Ps)
    pos = np.concatenate(pos)
    multi = np.concatenate([np.full(len(p), len(p) >= 6) for p in Ps])
    ctx.evals += len(P)
    ctx.log(op, len(calls), P.shape, float(P.sum()))
    if not np.isfinite(P).all():
        raise Violation("non-finite", op)
    T = Tests(f"{op} {plan.get('shape', plan.get('dim', ''))}"[:300])
    if dim > 1 or op in ("box",):
        nd = len(P) - len(np.unique(P, axis=0))
        # box edges have two fixed coordinates but the third still separates points
        if nd > 0:
            raise Violation("repeated-points", f"{op}: {nd} of {len(P)} points repeat an earlier one")

    lab = oct_ = cat = None
    if op == "box":
        U = (model.local(P) / model.he + 1) / 2
    elif op in ("ell", "ell_d"):
        U = ball_uniforms(model.local(P) / model.he)
    elif op == "ball":
        U = ball_uniforms(P)
    elif op == "sphere":
        U = sphere_uniforms(P)
    elif op == "cyl":
        q = model.local(P)
        U = np.stack([q[:, 2] / model.l + 0.5, (q[:, 0] ** 2 + q[:, 1] ** 2) / model.r**2, (np.arctan2(q[:, 1], q[:, 0]) / (2 * np.pi)) % 1], axis=1)
    elif op == "cap":
        U = cap_uniforms(model.local(P), model.l, model.r)
    elif op == "box_surface":
        q = model.local(P)
        d = np.stack([np.abs(q[:, a] - s * model.he[a]) for a in range(3) for s in (1, -1)], axis=1)
        lab = d.argmin(axis=1)
        x, y, z = model.he
        T.chi2("faces", np.bincount(lab, minlength=6), [y * z, y * z, x * z, x * z, x * y, x * y])
        for f in range(6):
            a = f // 2
            o = [k for k in range(3) if k != a]
            T.uniforms((q[lab == f][:, o] / model.he[o] + 1) / 2, f"face{f}:")
        T.position("position x face", pos[multi], lab[multi], 6)
        T.chi2("face lag1", np.bincount(lab[:-1] * 6 + lab[1:], minlength=36), np.outer(*[np.repeat([y * z, x * z, x * y], 2)] * 2).ravel())
        U = None
    elif op == "box_edges":
        q = model.local(P)
        # the edge's direction is the coordinate that is least extreme
        g = np.abs(np.abs(q) - model.he)
        lab = np.zeros(len(P), dtype=int)
        ax = np.argmax(g, axis=1)
        U0 = np.empty(len(P))
        for a in range(3):
            m = ax == a
            o = [k for k in range(3) if k != a]
            lab[m] = a * 4 + (q[m][:, o[0]] > 0) * 2 + (q[m][:, o[1]] > 0)
            U0[m] = (q[m][:, a] / model.he[a] + 1) / 2
        T.chi2("edges", np.bincount(lab, minlength=12), np.repeat(model.he, 4))
        for e in range(12):
            T.uniforms(U0[lab == e][:, None], f"edge{e}:")
        T.position("position x edge", pos[multi], lab[multi], 12)
        T.chi2("edge lag1", np.bincount(lab[:-1] * 12 + lab[1:], minlength=144), np.outer(np.repeat(model.he, 4), np.repeat(model.he, 4)).ravel())
        U = None
    elif op in ("ell_surface", "ell_surface2"):
        # reference: weighted directions. A uniform direction p maps to h*p with
        # surface density proportional to |p/h| prod(h)
        g = np.random.Generator(np.random.PCG64(12345))
        X = g.normal(size=(400000, dim))
        X /= np.linalg.norm(X, axis=1)[:, None]
        w = np.sqrt(np.sum((X / model.he) ** 2, axis=1))
        p = model.local(P) / model.he
        p = p / np.linalg.norm(p, axis=1)[:, None]
        A, B = sphere_uniforms(X), sphere_uniforms(p)
        neff = w.sum() ** 2 / (w**2).sum()
        k = {1: 48, 2: 10, 3: 5}[A.shape[1]]

        def cells(V):
            c = np.minimum((V * k).astype(int), k - 1)
            out = np.zeros(len(V), dtype=int)
            for j in range(V.shape[1]):
                out = out * k + c[:, j]
            return out

        ca, cb = cells(A), cells(B)
        pr = np.bincount(ca, weights=w, minlength=k ** A.shape[1])
        cat = (cb, pr, neff * 0.8)
        T.chi2("surface cells", np.bincount(cb, minlength=k ** A.shape[1]), pr, ref_n=neff * 0.8)
        for j in range(A.shape[1]):
            pj = np.bincount(np.minimum((A[:, j] * 32).astype(int), 31), weights=w, minlength=32)
            T.chi2(f"surface angle{j}", np.bincount(np.minimum((B[:, j] * 32).astype(int), 31), minlength=32), pj, ref_n=neff * 0.8)
        oct_ = (p > 0) @ (1 << np.arange(dim))
        T.chi2("orthants", np.bincount(oct_, minlength=1 << dim), np.ones(1 << dim))
        T.chi2("orthant lag1", np.bincount(oct_[:-1] * (1 << dim) + oct_[1:], minlength=1 << (2 * dim)), np.ones(1 << (2 * dim)))
        # a rejection loop must not sort the points
        T.position("position x orthant", pos[multi], oct_[multi], 1 << dim)
        for j in range(B.shape[1]):
            T.position(f"position x angle{j}", pos[multi], np.minimum((B[multi][:, j] * 6).astype(int), 5), 6)
        if model.he.max() > 1.2 * model.he.min():
            s = np.argsort(np.argsort(np.linalg.norm(p * model.he, axis=1))) * 8 // len(P)
            T.position("position x radius", pos[multi], s[multi], 8)
        U = None
    else:  # union
        g = np.random.Generator(np.random.PCG64(999))
        lo, hi = np.asarray(box.vertices).min(axis=0), np.asarray(box.vertices).max(axis=0)
        X = lo + (hi - lo) * g.random((600000, 3))
        ins = np.stack([m.viol(X) <= 0 for m in models], axis=1)
        X, ins = X[ins.any(axis=1)], ins[ins.any(axis=1)]
        pin = np.stack([m.viol(P) <= 1e-9 for m in models], axis=1)
        T.chi2("parts of the union", np.bincount(pin @ [1, 2], minlength=4), np.bincount(ins @ [1, 2], minlength=4) + 1e-9, ref_n=len(X) * 0.9)
        k = 5

        def cells(V):
            c = np.clip(((V - lo) / (hi - lo) * k).astype(int), 0, k - 1)
            return c[:, 0] * k * k + c[:, 1] * k + c[:, 2]

        cat = (cells(P), np.bincount(cells(X), minlength=k**3) + 1e-9, len(X) * 0.9)
        T.chi2("cells", np.bincount(cat[0], minlength=k**3), cat[1], ref_n=cat[2])
        o8 = (P > (lo + hi) / 2) @ [1, 2, 4]
        T.position("position x octant", pos[multi], o8[multi], 8)
        T.position("position x part", pos[multi], (pin @ [1, 2])[multi], 4)
        U = None
    if U is not None:
        T.uniforms(U)
        for j in range(U.shape[1]):
            lj = np.minimum((np.clip(U[:, j], 0, 1) * 6).astype(int), 5)
            T.position(f"position x u{j}", pos[multi], lj[multi], 6)
    # the first and the last point, and each of the first places, of every call on their own
    start = np.cumsum([0] + [len(p) for p in Ps[:-1]])
    size = np.array([len(p) for p in Ps])
    if U is not None and U.shape[1]:
        d = U.shape[1]
        T.spread("u", U, size, 0.5, np.eye(d) / 12)
        T.spread("u spread", (U - 0.5) ** 2, size, 1 / 12, np.eye(d) / 180)
        # the two halves of a call are independent
        fold, half = [], []
        for a, k in zip(start, size):
            if k >= 8:
                i = np.arange(k // 2)
                fold.append((a + i, a + k - 1 - i))
                half.append((a + i, a + i + k // 2))
        for what, pairs in (("mirrored", fold), ("half a call apart", half)):
            if pairs:
                i, j = np.concatenate([a for a, _ in pairs]), np.concatenate([b for _, b in pairs])
                for c in range(d):
                    T.joint(f"u{c} {what}", U[i, c], U[j, c])
    elif op == "box_surface":
        w = np.array([model.he[1] * model.he[2], model.he[0] * model.he[2], model.he[0] * model.he[1]])
        w = w / w.sum()
        T.spread("coordinates", q / model.he, size, 0.0, np.diag(w + (1 - w) / 3))
        T.counts("faces", lab, 6, np.repeat(w, 2), size)
    elif op == "box_edges":
        w = model.he / model.he.sum()
        T.spread("coordinates", q / model.he, size, 0.0, np.diag(w / 3 + 1 - w))
        T.counts("edges", lab, 12, np.repeat(w, 4), size)
    elif op in ("ell_surface", "ell_surface2"):
        T.spread("directions", p, size, 0.0, np.diag((w @ X**2) / w.sum()), inflate=neff)
    elif op == "union":
        T.spread("coordinates", P, size, X.mean(axis=0), np.cov(X.T), inflate=len(X))
    places = [("first", start), ("last", start + size - 1)]
    places += [(f"place {k}", start[size > k] + k) for k in (1, 2)] + [("last but one", (start + size - 2)[size > 1])]
    for what, at in places:
        if len(at) < 200:
            continue
        if U is not None:
            T.uniforms(U[at], f"{what}:")
        if lab is not None and len(at) >= 300:
            w = [model.he[1] * model.he[2], model.he[0] * model.he[2], model.he[0] * model.he[1]] if op == "box_surface" else model.he
            nl = 6 if op == "box_surface" else 12
            T.chi2(f"label of {what} points", np.bincount(lab[at], minlength=nl), np.repeat(w, nl // 3))
            # neighbours within one call
            j = at[np.isin(at + 1, start, invert=True) & (at + 1 < len(lab))]
            if len(j) >= 300:
                T.chi2(f"label after {what}", np.bincount(lab[j] * nl + lab[j + 1], minlength=nl * nl), np.outer(np.repeat(w, nl // 3), np.repeat(w, nl // 3)).ravel())
        if cat is not None:
            T.chi2(f"cells of {what} points", np.bincount(cat[0][at], minlength=len(cat[1])), cat[1], ref_n=cat[2])
        if oct_ is not None and len(at) >= 300:
            T.chi2(f"orthant of {what} points", np.bincount(oct_[at], minlength=1 << dim), np.ones(1 << dim))
    ctx.probe("statistical-tests", T.n)


def nontrivial(plan, res):
    return len(plan["calls"]) > 1


def shrink(plan):
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    if plan["other"]:
        yield dict(plan, other=False)
    if plan["nth"] > 1:
        yield dict(plan, nth=1)
    n = len(plan["calls"])
    if n > 1:
        tot = sum(c if isinstance(c, int) else c[0] * c[1] for c in plan["calls"])
        yield dict(plan, calls=[tot])
        yield dict(plan, calls=plan["calls"][: n // 2])
        yield dict(plan, calls=plan["calls"][n // 2 :])
    for key in ("via", "c", "R"):
        if plan.get("shape", {}).get(key):
            yield dict(plan, shape={k: v for k, v in plan["shape"].items() if k != key})
