import numpy as np
from mfpml.models.kernels import RBF

RULE = 'random n, m, d in 1..8, theta in [-3, 3], points in boxes of several scales; non-trivial: n*m > 1 and d > 1'
BOUND = 'n, m, d <= 8, rarely n, m <= 1199, d <= 39'


def want(X, Y, th):
    n, m = len(X), len(Y)
    M = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            M[i, j] = np.exp(-np.sum(10.0 ** th * (X[i] - Y[j]) ** 2)) + (1e-10 if i == j else 0.0)
    return M


def close(A, B):
    return np.shape(A) == np.shape(B) and np.all(np.abs(np.asarray(A) - B) <= 1e-9 + 1e-7 * np.abs(B))


def case(h, rng):
    n, m, d = rng.randint(1, 9, 3)
    if rng.rand() < .02:
        n, m = [(rng.randint(200, 1200), 3), (4, rng.randint(200, 1200)), (rng.randint(80, 200), rng.randint(80, 200))][rng.randint(3)]
    if rng.rand() < .05:
        d = rng.randint(9, 40)
    th = rng.uniform(-2, 2, d)
    s = 10.0 ** rng.randint(-2, 1)
    X, Y = rng.uniform(-s, s, (n, d)), rng.uniform(-s, s, (m, d))
    if rng.rand() < .3:
        Y[:min(n, m)] = X[:min(n, m)]
    if rng.rand() < .1:
        X = np.round(3 * X / s).astype(int)
    if rng.rand() < .1:
        Y = np.round(3 * Y / s).astype(int)
    lo, hi = sorted(rng.uniform(-5, 5, 2))
    k = RBF(theta=th.copy(), bounds=[lo, hi])
    X0, Y0 = X.copy(), Y.copy()
    h.nontrivial((n, m, d)) if n * m > 1 and d > 1 else None
    h.sample(n=n, m=m, theta=th)
    h.check(close(k.get_kernel_matrix(X, Y), want(X, Y, th)), 'kernel matrix', X=X, Y=Y, theta=th)
    p = rng.uniform(-2, 2, d)
    h.check(close(k(X, Y, p), want(X, Y, p)), '__call__ with given parameters', X=X, Y=Y, p=p)
    h.check(close(k.get_kernel_matrix(X, Y), want(X, Y, th)), '__call__ keeps stored parameters', X=X, Y=Y, theta=th)
    k.set_params(p)
    h.check(close(k.get_kernel_matrix(X, Y), want(X, Y, p)), 'set_params', X=X, Y=Y, p=p)
    S = k.get_kernel_matrix(X, X)
    h.check(close(S, S.T), 'symmetric', X=X, p=p)
    h.check(np.allclose(np.diag(S), 1 + 1e-10, atol=1e-9), 'unit diagonal', X=X, p=p)
    h.check(np.all(S >= 0) and np.all(S <= 1 + 1e-9), 'range', X=X, p=p)
    h.check(np.min(np.linalg.eigvalsh((S + S.T) / 2)) > -1e-7, 'positive semidefinite', X=X, p=p)
    h.check(close(k.get_kernel_matrix(X[0], Y), want(X[:1], Y, p)), 'single point', X=X[0], Y=Y, p=p)
    h.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'arguments untouched')
    h.check(k._get_num_para == d and list(k._get_low_bound) == [lo] * d and list(k._get_high_bound) == [hi] * d,
            'log bounds per dimension', lo=lo, hi=hi, d=d)


CASES = [('kernel', case, 600, 20000)]
