"""independent reference formulas and helpers for the runtime contracts"""
import numpy as np


class Opt:
    """an optimizer in the repository's interface that picks a point of the box"""

    def __init__(self, rng, lo=0.0, hi=1.0, u=None):
        self.rng, self.lo, self.hi, self.u = rng, lo, hi, u
        self.calls = []

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        ds = np.asarray(design_space, float)
        u = self.rng.uniform(self.lo, self.hi, num_dim) if self.u is None else np.asarray(self.u)[:num_dim]
        x = ds[:, 0] + u * (ds[:, 1] - ds[:, 0])
        self.calls.append((num_dim, ds.copy()))
        y = func(x)
        return {'best_x': x, 'best_y': y}, None, None


def space(rng, d):
    lo = rng.uniform(-5, 5, d)
    return np.column_stack([lo, lo + rng.uniform(.5, 8, d)])


def pts(rng, ds, n):
    """n well separated points"""
    d = len(ds)
    best = None
    for _ in range(20):
        u = rng.uniform(0, 1, (n, d))
        if n == 1:
            break
        D = np.sqrt(((u[:, None] - u[None]) ** 2).sum(-1)) + 9 * np.eye(n)
        if best is None or D.min() > best[0]:
            best = (D.min(), u)
    u = best[1] if best else u
    return ds[:, 0] + u * (ds[:, 1] - ds[:, 0])


def fun(rng, d):
    a, b, c = rng.uniform(-2, 2, d), rng.uniform(-1, 1, d), rng.uniform(-3, 3)
    s = 10.0 ** rng.uniform(-1, 2)
    return lambda X: (s * (np.sin(X @ a) + .3 * (X ** 2) @ b * .1 + c)).reshape(-1, 1)


def kern(A, B, w):
    D = (((A[:, None] - B[None]) ** 2) * w).sum(-1)
    return np.exp(-D) + 1e-10 * np.eye(len(A), len(B))


def norm(X, ds):
    return (X - ds[:, 0]) / (ds[:, 1] - ds[:, 0])


class Krig:
    """universal kriging with kernel matrix function k (normalised inputs), basis
    values F (n, p) and nugget"""

    def __init__(self, K, F, y):
        self.Ki = np.linalg.inv(K)
        self.cond = np.linalg.cond(K)
        self.F = F
        self.A = np.linalg.inv(F.T @ self.Ki @ F)
        self.beta = self.A @ F.T @ self.Ki @ y
        self.r = y - F @ self.beta
        self.gamma = self.Ki @ self.r
        self.s2 = float((self.r.T @ self.gamma).item()) / len(y)
        self.condF = np.linalg.cond(F.T @ self.Ki @ F)

    def at(self, kn, fn):
        mean = fn @ self.beta + kn.T @ self.gamma
        R = fn.T - self.F.T @ self.Ki @ kn
        var = self.s2 * (1 - np.einsum('ij,ij->j', kn, self.Ki @ kn) + np.einsum('ij,ij->j', R, self.A @ R))
        return mean, var.reshape(-1, 1)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a) & np.isfinite(b)) and
                                       np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))
