"""Independent numerical oracles: none of this calls rigeo or a conic solver."""
import itertools

import numpy as np
import scipy.optimize


# ------------------------------------------------------------------- distance
def min_norm(W):
    """Least-norm point of the convex hull of the rows of W (NNLS formulation)."""
    n, d = W.shape
    big = 1e3 * max(1.0, float(np.max(np.abs(W))))
    A = np.vstack([W.T, big * np.ones((1, n))])
    lam, _ = scipy.optimize.nnls(A, np.concatenate([np.zeros(d), [big]]), maxiter=200 * n + 200)
    s = lam.sum()
    lam = lam / s if s > 0 else np.ones(n) / n
    return lam


def support_point(m, d):
    """A point of geom.M `m` furthest along d."""
    if m.k == "poly":
        return m.V[int(np.argmax(m.V @ d))]
    u = m.R.T @ d
    if m.k == "box":
        return m.c + m.R @ (m.he * np.where(u >= 0, 1.0, -1.0))
    if m.k == "ell":
        w = m.he**2 * u
        n = np.linalg.norm(m.he * u)
        return m.c + m.R @ (w / n if n > 1e-300 else 0 * w)
    z = m.l / 2 * (1.0 if u[2] >= 0 else -1.0)
    if m.k == "cyl":
        n = np.hypot(u[0], u[1])
        xy = m.r * u[:2] / n if n > 1e-300 else np.zeros(2)
        return m.c + m.R @ np.array([xy[0], xy[1], z])
    n = np.linalg.norm(u)
    return m.c + m.R @ (np.array([0, 0, z]) + m.r * u / n)


def distance_bounds(a, b, tol=1e-7, iters=400):
    """(lower, upper) bounds on the distance between two models, by fully
    corrective Frank-Wolfe on the Minkowski difference."""
    o = b.center() - a.center()
    if np.linalg.norm(o) < 1e-12:
        return 0.0, 0.0
    W = [support_point(b, -o) - support_point(a, o)]
    v = W[0]
    lo = 0.0
    for _ in range(iters):
        nv = np.linalg.norm(v)
        if nv < 1e-9:
            return 0.0, nv
        n = v / nv
        # n separates: b is at least lo beyond a along n
        lo = max(lo, -b.support(-n) - a.support(n))
        if nv - lo < tol:
            break
        W.append(support_point(b, -n) - support_point(a, n))
        X = np.array(W)
        lam = min_norm(X)
        keep = lam > 1e-12
        if keep.sum() < 40:
            W = [w for w, k in zip(W, keep) if k]
            lam = lam[keep]
        v = lam @ np.array(W)
    return lo, float(np.linalg.norm(v))


def separation(a, b, n):
    """Certified lower bound on the distance from a direction."""
    n = n / np.linalg.norm(n)
    return -b.support(-n) - a.support(n)


# ------------------------------------------------------- enclosing ellipsoids
def affine_frame(P, tol=1e-7):
    o = P.mean(axis=0)
    U, s, Vt = np.linalg.svd(P - o, full_matrices=True)
    r = int(np.sum(s > tol * max(1.0, s[0])))
    return o, Vt[:r].T


def mvee(P, tol=1e-9, iters=20000):
    """Least-volume ellipsoid of points spanning their space: (c, S) with
    (x-c)S(x-c) <= 1, by Khachiyan's method with away steps."""
    n, d = P.shape
    mu, sd = P.mean(axis=0), max(1e-12, float(np.std(P)))
    X = (P - mu) / sd
    Q = np.hstack([X, np.ones((n, 1))]).T
    u = np.ones(n) / n
    for _ in range(iters):
        M = np.linalg.inv((Q * u) @ Q.T)
        g = np.einsum("ij,ik,kj->j", Q, M, Q)
        j = int(np.argmax(g))
        pos = np.where(u > 1e-14)[0]
        k = int(pos[np.argmin(g[pos])])
        ej = g[j] / (d + 1) - 1
        ek = 1 - g[k] / (d + 1)
        if max(ej, ek) < tol:
            break
        if ej >= ek:
            b = (g[j] - d - 1) / ((d + 1) * (g[j] - 1))
            u *= 1 - b
            u[j] += b
        else:
            b = (d + 1 - g[k]) / ((d + 1) * (g[k] - 1)) if g[k] > 1 else np.inf
            b = min(b, u[k] / (1 - u[k]) if u[k] < 1 else np.inf)
            u *= 1 + b
            u[k] = max(0.0, u[k] - b)
    c = X.T @ u
    S = np.linalg.inv((X.T * u) @ X - np.outer(c, c)) / d
    return mu + sd * c, S / sd**2


def meb(P):
    """Smallest enclosing ball of points: (c, r), by trying every support set
    (few points) or by refined convex minimisation."""
    P = np.asarray(P, dtype=float)
    n, d = P.shape
    best = None
    if n <= 12:
        for k in range(1, min(n, d + 1) + 1):
            for idx in itertools.combinations(range(n), k):
                B = P[list(idx)]
                o = B[0]
                if k == 1:
                    c = o
                else:
                    D = B[1:] - o
                    G = D @ D.T
                    if np.linalg.cond(G) > 1e12:
                        continue
                    c = o + 0.5 * np.linalg.solve(G, np.sum(D * D, axis=1)) @ D
                r = float(np.max(np.linalg.norm(B - c, axis=1)))
                if np.max(np.linalg.norm(P - c, axis=1)) <= r * (1 + 1e-9) + 1e-12 and (best is None or r < best[1]):
                    best = (c, r)
        if best is not None:
            return best
    W = P
    c = P.mean(axis=0)
    for k in range(1, 200000):
        D = np.linalg.norm(W - c, axis=1)
        c = c + (W[int(np.argmax(D))] - c) / (k + 1)
    return c, float(np.max(np.linalg.norm(P - c, axis=1)))


def max_quad(c, S, cb, Bm, g, starts=48, iters=300):
    """max over the ellipsoid cb + Bm y (|y|<=1) of (x-c)S(x-c), and where."""
    L = np.linalg.cholesky(S + 1e-15 * np.trace(S) * np.eye(len(c))).T
    A, b = L @ Bm, L @ (cb - c)
    Y = g.normal(size=(starts, Bm.shape[1]))
    U, s, Vt = np.linalg.svd(A)
    Y = np.vstack([Y, Vt, -Vt, (A.T @ b)[None] + 1e-9])
    Y /= np.linalg.norm(Y, axis=1)[:, None]
    for _ in range(iters):
        Z = (Y @ A.T + b) @ A
        nz = np.linalg.norm(Z, axis=1)
        Y2 = Z / np.maximum(nz, 1e-300)[:, None]
        if np.max(np.abs(Y2 - Y)) < 1e-11:
            Y = Y2
            break
        Y = Y2
    V = np.sum((Y @ A.T + b) ** 2, axis=1)
    j = int(np.argmax(V))
    return float(V[j]), cb + Bm @ Y[j]


def mvee_of_ells(ells, g, rounds=25, tol=1e-3):
    """Bounds (lower, upper) on the log of the product of half extents of the
    least-volume ellipsoid around (centre, factor) ellipsoids: that of points on
    their surfaces, added where they stick out, is a lower bound."""
    P = []
    for c, B in ells:
        U, s, Vt = np.linalg.svd(B)
        for j in range(len(s)):
            P += [c + U[:, j] * s[j], c - U[:, j] * s[j]]
    P = np.array(P)
    best = (-np.inf, np.inf)
    for _ in range(rounds):
        c, S = mvee(P, tol=1e-5, iters=1500)
        lv = -0.5 * np.linalg.slogdet(S)[1]
        q = np.einsum("ij,jk,ik->i", P - c, S, P - c)
        top = q.max()
        new = []
        for cb, B in ells:
            v, x = max_quad(c, S, cb, B, g, starts=24)
            top = max(top, v)
            if v > 1 + tol / 10:
                new.append(x)
        d = len(c)
        # mvee's own gap: its points may stick out by q.max()
        best = (max(best[0], lv - d * 1e-5), min(best[1], lv + 0.5 * d * np.log(max(1.0, top))))
        if top <= 1 + tol or not new:
            break
        P = np.vstack([P, new])
    return best


def meb_of_balls(balls, iters=4000):
    """Smallest ball around balls [(c, r)]: radius (to ~1e-6)."""
    C = np.array([c for c, _ in balls])
    r = np.array([x for _, x in balls])

    def f(c):
        return float(np.max(np.linalg.norm(C - c, axis=1) + r))

    c = C.mean(axis=0)
    best = scipy.optimize.minimize(f, c, method="Nelder-Mead", options={"xatol": 1e-9, "fatol": 1e-10, "maxiter": iters, "maxfev": iters})
    best = scipy.optimize.minimize(f, best.x, method="Nelder-Mead", options={"xatol": 1e-10, "fatol": 1e-11, "maxiter": iters, "maxfev": iters})
    return best.x, float(best.fun)


# ------------------------------------------------------- inscribed ellipsoids
def john_residual(c, B, A, b, slack=5e-3):
    """Is c + B y (|y|<=1) the largest ellipsoid in {Ax<=b}?  Returns
    (overhang, residual): relative violation and the distance from John's
    optimality condition using the faces within `slack` of touching."""
    A = np.asarray(A, dtype=float)
    b = np.asarray(b, dtype=float)
    N = A @ B  # rows in the unit-ball frame
    nn = np.linalg.norm(N, axis=1)
    ok = nn > 1e-12
    gap = (b - A @ c - nn)[ok] / nn[ok]  # in units of the ball's radius
    U = N[ok] / nn[ok][:, None]
    near = gap < slack
    if not near.any():
        return float(-gap.min()), np.inf
    U = U[near]
    d = len(c)
    rows = [U.T]
    tgt = [np.zeros(d)]
    M = np.array([np.outer(u, u).ravel() for u in U]).T
    A2 = np.vstack([U.T, M])
    t2 = np.concatenate([np.zeros(d), np.eye(d).ravel()])
    lam, res = scipy.optimize.nnls(A2, t2, maxiter=2000)
    return float(-gap.min()), float(res)


def chebyshev(A, b):
    """Centre and radius of the largest ball in {Ax<=b} (None if empty)."""
    A = np.asarray(A, dtype=float)
    n = np.linalg.norm(A, axis=1)
    d = A.shape[1]
    r = scipy.optimize.linprog(
        np.r_[np.zeros(d), -1.0], A_ub=np.hstack([A, n[:, None]]), b_ub=b, bounds=[(None, None)] * d + [(None, None)], method="highs"
    )
    if r.status != 0:
        return None
    return r.x[:d], float(r.x[d])
