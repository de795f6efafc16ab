"""The simulated convex solver: Clarabel behind a seam that decides, call by call,
whether it works, stops early, fails or lies about its status.

A script is a list of behaviours, one per call; when it is exhausted calls are
honest.  Behaviours:
  "ok"
  ["raise", exc]        the call raises
  ["status", S]         honest solution vectors, but Clarabel status S
  ["iter", k]           stop after k iterations
  ["almost", sigma]     AlmostSolved, with relative noise sigma on the solution
"""
import numpy as np
import cvxpy as cp
import clarabel
from cvxpy.reductions.solvers.conic_solvers.clarabel_conif import CLARABEL

from core import make_exc

REAL = clarabel.DefaultSolver
_inside = [0]
others = {}  # solver name -> calls made to it behind the caller's back


class Res:
    def __init__(self, r):
        for k in ("x", "z", "s", "status", "obj_val", "solve_time", "iterations"):
            setattr(self, k, getattr(r, k, None))


class SimSolver(CLARABEL):
    def __init__(self, script=(), name="SIMCLARABEL"):
        self._script = list(script)
        self._name = name
        self.calls = 0
        self.done = []  # (behaviour, final status) per call
        super().__init__()

    def name(self):
        return self._name

    def solve_via_data(self, data, warm_start, verbose, solver_opts, solver_cache=None):
        k = self.calls
        self.calls += 1
        act = self._script[k] if k < len(self._script) else "ok"
        if act != "ok" and act[0] == "raise":
            self.done.append((act, "raised"))
            if act[1] == "SolverError":
                e = cp.error.SolverError("simulated fault")
                e._simulated = True
                raise e
            raise make_exc(act[1])
        opts = dict(solver_opts)
        if act != "ok" and act[0] == "iter":
            opts["max_iter"] = act[1]
        _inside[0] += 1
        try:
            r = super().solve_via_data(data, warm_start, verbose, opts, None)
        finally:
            _inside[0] -= 1
        if act != "ok" and act[0] == "status":
            r = Res(r)
            r.status = act[1]
        elif act != "ok" and act[0] == "almost":
            r = Res(r)
            if str(r.status) == "Solved":
                r.status = "AlmostSolved"
                x = np.array(r.x)
                g = np.random.RandomState(k)
                r.x = x + act[1] * np.maximum(1.0, np.abs(x)) * g.uniform(-1, 1, x.shape)
        self.done.append((act, str(r.status)))
        return r


def watch_others():
    """Count every use of a solver that did not go through a SimSolver."""
    others.clear()

    class Watched:
        def __new__(cls, *a, **k):
            if not _inside[0]:
                others["clarabel"] = others.get("clarabel", 0) + 1
            return REAL(*a, **k)

    clarabel.DefaultSolver = Watched

    def wrap(mod, attr, name):
        try:
            m = __import__(mod)
            f = getattr(m, attr)
        except Exception:
            return

        def g(*a, **k):
            others[name] = others.get(name, 0) + 1
            return f(*a, **k)

        setattr(m, attr, g)

    wrap("scs", "SCS", "scs")
    wrap("scs", "solve", "scs")
    wrap("osqp", "OSQP", "osqp")
    wrap("ecos", "solve", "ecos")
    # everything else cvxpy knows about
    from cvxpy.reductions.solvers.defines import SOLVER_MAP_CONIC, SOLVER_MAP_QP

    for mp in (SOLVER_MAP_CONIC, SOLVER_MAP_QP):
        for nm, inst in mp.items():
            cls = type(inst)
            if issubclass(cls, SimSolver) or nm in ("CLARABEL", "SCS", "OSQP", "ECOS"):
                continue
            old = cls.solve_via_data

            def svd(self, *a, _old=old, _nm=nm, **k):
                others[_nm] = others.get(_nm, 0) + 1
                return _old(self, *a, **k)

            cls.solve_via_data = svd
