"""C07: caller-owned arrays are neither modified nor retained."""
import copy

import numpy as np

import core
import geom
import isolated
import ops
from core import Violation, Pristine, Tracer, is_simulated
from world import rg

CONFIG = {
    "runs": {"quick": 2400, "thorough": 50000},
    "rule": "A run builds objects and issues operations with arrays of generated layouts (contiguous, Fortran, strided views "
    "into guarded buffers, read-only) and lists; every array handed over is compared at every traced line and after the call. "
    "Then the caller overwrites and extends all of them, and transformed copies, and every object is fingerprinted against "
    "a pristine fork. Non-trivial: at least one array or list was overwritten afterwards.",
    "real": ["all rigeo object code"],
    "stub": [],
    "assumptions": ["C07 is checked on float arrays, lists and dicts"],
}

LAYOUTS = ["c", "c", "f", "stride", "view", "ro", "ro"]


def gen(rng, tier, i):
    steps = []
    if i % 3 == 1:
        # one run in three tries each operation in turn
        pool, first = ops.gen_target(rng, i // 3)
        steps.append(first)
    else:
        pool = ops.gen_pool(rng, rng.choice([1, 2, 3]))
    for _ in range(rng.choice([1, 2, 4])):
        new = rng.choice([True, True, None])
        o = ops.gen_op(rng, pool, rand=False, solver=0.05, heavy=0.1, new=new) or ops.gen_op(rng, pool, solver=0, heavy=0)
        if o:
            steps.append(o)
    return {
        "pool": pool,
        "steps": steps,
        "layouts": [rng.choice(LAYOUTS) for _ in range(12)],
        "scribble": rng.choice(["nan", "big", "scale", "shift", "zero"]),
        "early": rng.random() < 0.4,
        "cut": [rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"])] if rng.random() < 0.25 else None,
    }


class Caller:
    """Owns every array and list handed to the library."""

    def __init__(self, layouts):
        self.layouts = layouts
        self.n = 0
        self.arrays = []  # (array given, backing buffer, expected bytes of the buffer)
        self.lists = []  # (list given, expected items)

    def __call__(self, x):
        if isinstance(x, list):
            x = list(x)
            self.lists.append((x, list(x)))
            return x
        if isinstance(x, dict):
            x = dict(x)
            self.lists.append((x, dict(x)))
            return x
        a = np.asarray(x, dtype=float)
        lay = self.layouts[self.n % len(self.layouts)]
        self.n += 1
        if lay == "f":
            buf = np.asfortranarray(a.copy())
            give = buf
        elif lay == "stride":
            buf = np.full(tuple(2 * s + 1 for s in a.shape), -77.0)
            sl = tuple(slice(1, None, 2) for _ in a.shape)
            buf[sl] = a
            give = buf[sl]
        elif lay == "view":
            buf = np.full((a.shape[0] + 2,) + a.shape[1:], -55.0) if a.ndim else a.copy()
            if a.ndim:
                buf[1:-1] = a
                give = buf[1:-1]
            else:
                give = buf
        else:
            buf = a.copy()
            give = buf
            if lay == "ro":
                give.flags.writeable = False
        self.arrays.append([give, buf, buf.tobytes()])
        return give

    def changed(self):
        for give, buf, exp in self.arrays:
            if buf.tobytes() != exp:
                return f"array {give.shape} now {np.array2string(give.ravel()[:6], precision=4)}"
        for lst, exp in self.lists:
            same = len(lst) == len(exp)
            if same and isinstance(exp, list):
                same = all(a is b for a, b in zip(lst, exp))
            elif same:
                same = lst == exp
            if not same:
                return f"list or dict of length {len(exp)} now {str(lst)[:200]}"
        return None

    def scribble(self, how):
        """The caller reuses its memory."""
        n = 0
        for rec in self.arrays:
            give, buf, _ = rec
            try:
                buf.flags.writeable = True
            except ValueError:
                continue
            overwrite(buf, how)
            rec[2] = buf.tobytes()
            n += 1
        for k, (lst, _) in enumerate(self.lists):
            if isinstance(lst, list):
                lst.append("extra")
                lst.reverse()
                self.lists[k] = (lst, list(lst))
            else:
                for key in lst:
                    lst[key] = 99.0
                k0 = next(iter(lst))
                k9 = tuple(9 for _ in getattr(k0, "value", k0))
                lst[type(k0)(k9)] = 3.0
                self.lists[k] = (lst, dict(lst))
            n += 1
        return n


def overwrite(a, how):
    if not a.flags.writeable or a.dtype == object:
        return False
    if a.dtype == bool:
        a[...] = ~a
        return True
    if how == "nan":
        a[...] = np.nan if a.dtype.kind == "f" else -5
    elif how == "big":
        a[...] = 1234
    elif how == "scale":
        np.multiply(a, 3, out=a)
        np.add(a, 1, out=a)
    elif how == "shift":
        np.add(a, 1, out=a)
    else:
        a[...] = 0
    return True


def scribble_object(o, how, seen=None, depth=0):
    """Overwrite everything reachable through an object's public attributes."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 4:
        return 0
    seen.add(id(o))
    n = 0
    if isinstance(o, np.ndarray):
        return int(overwrite(o, how))
    if isinstance(o, list):
        for x in list(o):
            n += scribble_object(x, how, seen, depth + 1)
        o.clear()
        return n + 1
    if isinstance(o, dict):
        o.clear()
        return 1
    if not type(o).__module__.startswith("rigeo"):
        return 0
    for name in dir(o):
        if name.startswith("_"):
            continue
        try:
            v = getattr(o, name)
        except Exception:
            continue
        if isinstance(v, (np.ndarray, list, dict)) or type(v).__module__.startswith("rigeo"):
            n += scribble_object(v, how, seen, depth + 1)
    return n


COPIES = ("transform", "rotate_about_center", "par_T", "body_T", "span_T", "face_T")
CLASSES = (rg.Box, rg.ConvexPolyhedron, rg.Ellipsoid, rg.Cylinder, rg.Capsule, rg.InertialParameters, rg.RigidBody, rg.SpanForm, rg.FaceForm, rg.Polynomial, rg.SpatialVector)


def handler(pool):
    h = isolated.handler(pool)

    def f(req):
        if req[0] == "result":
            objs = ops.build_pool(pool, ops.needs(req[1]))
            v = perform(req[1], objs, None)
            return fingerprint(v)
        return h(req)

    return f


def perform(o, objs, reg):
    try:
        return ops.apply(o, ops.Env(objs, reg=reg, rng=np.random.default_rng(o["x"].get("seed", 0))))
    except BaseException as e:
        if is_simulated(e) or not isinstance(e, Exception):
            raise
        return e


def fingerprint(v):
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__)
    if isinstance(v, CLASSES):
        return isolated.safe_probe(v)
    return ops.canon(v)


def run(plan, ctx):
    pool = plan["pool"]
    pris = Pristine(handler(pool))
    caller = Caller(plan["layouts"])
    ctx.nwrites = 0

    def watch(what):
        def hook(frame):
            c = caller.changed()
            if c:
                raise Violation("modified", f"{what}: in {frame.f_code.co_name}: {c}")

        t = Tracer()
        t.hook = hook
        return t

    what = "building the objects"
    tr = watch(what)
    try:
        with tr:
            objs = ops.build_pool(pool, reg=caller)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        raise Violation("modified", f"{what}: {type(e).__name__}: {e} (with read-only or strided input)")
    c = caller.changed()
    if c:
        raise Violation("modified", f"{what}: {c}")
    if plan["early"]:
        ctx.nwrites += caller.scribble(plan["scribble"])
        ctx.fault("caller-overwrites")

    results = []
    for o in plan["steps"]:
        what = isolated.describe(o, pool)
        ref = pris(("result", o))
        tr = watch(what)
        if plan["cut"] and tr.fault_at is None:
            tr.fault_at = 1 + int(plan["cut"][0] * 60)
            tr.fault_exc = plan["cut"][1]
        for attempt in range(2):
            try:
                with tr:
                    v = perform(o, objs, caller)
                break
            except BaseException as e:
                if not is_simulated(e):
                    raise
                ctx.fault(f"interrupt:{plan['cut'][1]}")
                c = caller.changed()
                if c:
                    raise Violation("modified", f"{what}: after an interrupt: {c}")
                tr = watch(what)
        ctx.steps += tr.steps
        c = caller.changed()
        if c:
            raise Violation("modified", f"{what}: {c}")
        ctx.log(o["op"], type(v).__name__, caller.n)
        ctx.evals += 1
        if isinstance(v, Exception) and ref != ("exc", type(v).__name__):
            raise Violation("modified", f"{what}: {type(v).__name__}: {v} with caller-owned arrays of layouts {plan['layouts']}")
        if not isinstance(v, CLASSES):
            d = ops.same(ref, fingerprint(v), ops.tol_of(o))
            if d:
                raise Violation("retained", f"{what}: {d}")
        results.append((o, what, v, ref))
        if plan["early"]:
            ctx.nwrites += caller.scribble(plan["scribble"])
            ctx.fault("caller-overwrites")
    ctx.nwrites += caller.scribble(plan["scribble"])
    ctx.fault("caller-overwrites")

    def check_all(when):
        refs = pris(("probes",))
        for i, (o, ref) in enumerate(zip(objs, refs)):
            ctx.evals += 1
            d = ops.same(ref, isolated.safe_probe(o))
            if d:
                raise Violation("retained", f"{when}: {pool[i]['k']} {str(pool[i])[:250]}: {d}")

    check_all("after the caller reused its arrays")
    for o, what, v, ref in results:
        ctx.evals += 1
        d = ops.same(ref, fingerprint(v), ops.tol_of(o))
        if d:
            raise Violation("retained", f"{what}: result changed after the caller reused its arrays: {d}")
    c = caller.changed()
    if c:
        raise Violation("modified", f"by later queries: {c}")
    # transformed copies are independent of the original
    hit = 0
    for o, what, v, ref in results:
        if o["op"] in COPIES:
            hit += scribble_object(v, plan["scribble"])
    if hit:
        ctx.fault("copy-overwritten", hit)
        check_all("after a transformed copy was overwritten")
    pris.close()


def nontrivial(plan, res):
    return res["faults"].get("caller-overwrites", 0) > 0


def shrink(plan):
    yield from core.shrink_lists(plan, ["steps"])
    if plan["cut"]:
        yield dict(plan, cut=None)
    if plan["early"]:
        yield dict(plan, early=False)
    if any(l != "c" for l in plan["layouts"]):
        yield dict(plan, layouts=["c"] * 12)
