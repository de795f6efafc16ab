"""Helpers shared by the property modules."""
import sys

import numpy as np

import core
from core import Violation, SimStuck, Sched, Tracer, is_simulated


def shape_arg(s):
    """Requested arrangement from its JSON form (int or list)."""
    return tuple(s) if isinstance(s, list) else s


def expect_arrangement(s, dim):
    """Allowed result shapes for a request."""
    if isinstance(s, list):
        full = tuple(s) + (dim,)
        if s == [1]:
            return [full, (dim,)]
        return [full]
    if s == 1:
        return [(dim,)]
    return [(s, dim)]


def gen_shape_arg(rng, big=60):
    r = rng.random()
    if r < 0.22:
        return 1
    if r < 0.27:
        return 0
    if r < 0.65:
        return rng.choice([2, 3, rng.randint(2, big)])
    if r < 0.72:
        return [1]
    if r < 0.82:
        return [rng.randint(2, big)]
    if r < 0.95:
        return [rng.randint(1, 6), rng.randint(1, 8)]
    return [rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)]


def run_tasks(tasks, spec, ctx, budget=3_000_000):
    """Run the callables under the simulated scheduler. Returns the scheduler."""
    sched = Sched(spec, budget=budget)
    sched.run(tasks)
    ctx.steps += sched.steps
    ctx.sched = sched.explicit_spec()
    ctx.sites |= sched.sites
    nsw = sum(1 for _ in sched.switches)
    if len(tasks) > 1:
        ctx.fault("thread-switch", max(0, nsw - 1))
    for t, s, e in sched.fired:
        ctx.fault(f"interrupt:{e}")
        ctx.log("fault", t, s, e)
    ctx.log("switches", sched.switches)
    sched.check()
    for r in sched.results:
        if r is not None and r[0] == "exc":
            e = r[1]
            raise e
    return sched


def rel_close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    if not fin.all():
        x, y = a[~fin], b[~fin]
        if not np.array_equal(np.isnan(x), np.isnan(y)) or not np.array_equal(np.sign(x[~np.isnan(x)]), np.sign(y[~np.isnan(y)])):
            return False
        a, b = a[fin], b[fin]
        if a.size == 0:
            return True
    sc = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * sc)
