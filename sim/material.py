"""Reference model of material bodies: point masses and placed shapes that are
moved and merged explicitly, without any of the library's formulas."""
import copy

import numpy as np

import geom
import ops
from core import Violation


class Material:
    """Point masses plus an ordered list of tagged shapes."""

    def __init__(self, masses=(), points=(), shapes=()):
        self.m = np.array(masses, dtype=float).reshape(-1)
        self.P = np.array(points, dtype=float).reshape(-1, 3)
        self.shapes = list(shapes)  # (tag, geom.M)
        self.scale = 1e-30
        self.rescale()

    @staticmethod
    def of(spec, shapes=()):
        """From an ops-style params spec (None: massless)."""
        if spec is None or spec["how"] == "zero":
            return Material(shapes=shapes)
        m, P = np.array(spec["m"]), np.array(spec["p"])
        if spec["how"] in ("point", "ucom"):
            P = np.tile(P[0], (len(m), 1))
        return Material(m, P, shapes)

    def rescale(self):
        # the size of what is added up: light parts far away do not blur heavy ones
        self.scale = max(self.scale, float(np.sum(self.m * (1.0 + np.sum(self.P**2, axis=1)))))

    def copy(self):
        o = Material(self.m.copy(), self.P.copy(), [(t, g.copy()) for t, g in self.shapes])
        o.scale = self.scale
        return o

    def move(self, T):
        o = self.copy()
        R = np.eye(3) if T.get("R") is None else np.array(T["R"])
        t = np.zeros(3) if T.get("t") is None else np.array(T["t"])
        o.P = o.P @ R.T + t
        out = []
        for tag, g in o.shapes:
            g.move(T)
            out.append((tag, g))
        o.shapes = out
        # the centre of a far-away frame also costs digits
        o.scale = max(o.scale, o.m.sum() * (1 + float(t @ t)))
        o.rescale()
        return o

    def plus(self, other):
        o = self.copy()
        q = other.copy()
        o.m = np.concatenate([o.m, q.m])
        o.P = np.vstack([o.P, q.P])
        o.shapes = o.shapes + q.shapes
        o.scale = o.scale + q.scale
        o.rescale()
        return o

    def moments(self):
        J = np.zeros((4, 4))
        for m, p in zip(self.m, self.P):
            q = np.append(p, 1.0)
            J += m * np.outer(q, q)
        return J

    # ---------------------------------------------------------------- checks
    def check_params(self, p, what, tol=1e-8):
        J = self.moments()
        M = self.m.sum()
        atol = tol * self.scale

        def cmp(name, got, want, at=atol):
            got = np.asarray(got, dtype=float)
            if got.shape != np.shape(want):
                raise Violation("params", f"{what}: {name} has shape {got.shape}")
            if not np.isfinite(got).all():
                raise Violation("params", f"{what}: {name} is not finite: {got.ravel()[:6]}")
            if np.max(np.abs(got - want), initial=0.0) > at:
                raise Violation("params", f"{what}: {name} is {got.ravel()[:6]} but the material gives {np.asarray(want).ravel()[:6]}")

        cmp("mass", p.mass, M)
        cmp("J", p.J, J)
        cmp("h", p.h, J[:3, 3])
        cmp("H", p.H, J[:3, :3])
        I = np.trace(J[:3, :3]) * np.eye(3) - J[:3, :3]
        cmp("I", p.I, I)
        cmp("vec", p.vec, np.concatenate([[M], J[:3, 3], I[np.triu_indices(3)]]))
        if M > 1e-6 * min(1.0, self.scale):
            c = J[:3, 3] / M
            cmp("com", p.com, c, at=1e-8 * max(1.0, self.scale / M))
            Hc = sum(m * np.outer(q - c, q - c) for m, q in zip(self.m, self.P))
            cmp("Hc", p.Hc, Hc)
            cmp("Ic", p.Ic, np.trace(Hc) * np.eye(3) - Hc)
        else:
            cmp("com", np.asarray(p.com) * 0, np.zeros(3))

    def check_shapes(self, shapes, what, tol=1e-6, order=True):
        """Every tagged shape is there exactly once, a part's shapes in order."""
        if len(shapes) != len(self.shapes):
            raise Violation("shapes", f"{what}: {len(shapes)} shapes instead of {len(self.shapes)}")
        used = {}
        for k, (tag, g) in enumerate(self.shapes):
            best = None
            for j, s in enumerate(shapes):
                if j in used.values():
                    continue
                try:
                    f = geom.fit(g, s)
                except AttributeError:
                    continue
                sc = max(1.0, float(np.max(np.abs(g.center()))))
                if f <= tol * sc and (best is None or f < best[0]):
                    best = (f, j)
            if best is None:
                raise Violation("shapes", f"{what}: shape {tag} ({g.k}) of the material is missing or displaced")
            used[k] = best[1]
            e = geom.size_error(g, shapes[best[1]])
            if e > 1e-9:
                raise Violation("shapes", f"{what}: shape {tag} ({g.k}) has changed: relative error {e:.3g}")
        if not order:
            return
        last = {}
        for k, (tag, g) in enumerate(self.shapes):
            part = tag[0]
            if part in last and used[k] < last[part]:
                # equal shapes may be matched either way round
                raise Violation("shapes", f"{what}: shapes of part {part} are out of order")
            last[part] = used[k]
