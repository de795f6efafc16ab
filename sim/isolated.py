"""What an operation does when it runs alone, on private copies, in a process in
which nothing happened before."""
import numpy as np

import core
import ops
from core import is_simulated


def outcome(op_, objs, rng=None, solver=None, deep=False, reg=None):
    """Canonical result of one operation (exceptions included)."""
    if ops.OPS[op_["op"]]["rand"]:
        rng = op_["x"]["seed"] if rng is None else rng
    try:
        v = ops.apply(op_, ops.Env(objs, rng=rng, solver=solver, reg=reg))
    except BaseException as e:
        if is_simulated(e) or not isinstance(e, Exception):
            raise
        return ("exc", type(e).__name__)
    if deep:
        try:
            return ops.probe(v)
        except BaseException as e:
            if is_simulated(e) or not isinstance(e, Exception):
                raise
            return ("probe-exc", type(e).__name__)
    return ops.canon(v)


def safe_probe(o):
    try:
        return ops.probe(o)
    except Exception as e:
        return ("probe-exc", type(e).__name__)


def handler(pool):
    """Request handler for a pristine server: ('op', op, deep) or ('probe', i)."""

    def h(req):
        if req[0] == "op":
            objs = ops.build_pool(pool, ops.needs(req[1]))
            return outcome(req[1], objs, deep=req[2])
        if req[0] == "ops":  # several, each on objects of its own
            return [outcome(o, ops.build_pool(pool, ops.needs(o)), deep=d) for o, d in req[1]]
        if req[0] == "probe":
            objs = ops.build_pool(pool, [req[1]])
            return safe_probe(objs[req[1]])
        if req[0] == "probes":
            objs = ops.build_pool(pool)
            return [safe_probe(o) for o in objs]
        raise ValueError(req)

    return h


def describe(op_, pool):
    return f"{op_['op']} {str(op_['x'])[:160]} on {str(pool[op_['i']])[:200]}"


def safe_probe_build(pool, objs, i):
    """Build one more object from its specification and fingerprint it."""
    sub = list(objs)
    try:
        o = ops.build_obj(pool[i], sub)
    except BaseException as e:
        if is_simulated(e) or not isinstance(e, Exception):
            raise
        return ("exc", type(e).__name__)
    try:
        return ops.probe(o)
    except BaseException as e:
        if is_simulated(e) or not isinstance(e, Exception):
            raise
        return ("probe-exc", type(e).__name__)


def describe_any(op_, pool):
    what = str(pool[op_["i"]])[:200] if op_["i"] < len(pool) else "a derived object"
    return f"{op_['op']} {str(op_['x'])[:160]} on {what}"
