import numpy as np
from mfpml.models.basis_functions import Linear, Ordinary, Quadratic

RULE = 'random n in 1..7, d in 1..12 (sometimes to 40), points of several scales; non-trivial: d > 1'
BOUND = 'n <= 7, rarely <= 1499, d <= 40'


def cols(F, W):
    """F's columns are W's columns in some order"""
    if F.shape != W.shape:
        return False
    used = set()
    for c in range(W.shape[1]):
        k = [q for q in range(F.shape[1]) if q not in used and np.allclose(F[:, q], W[:, c], rtol=1e-12, atol=0)]
        if not k:
            return False
        used.add(k[0])
    return True


def case(h, rng):
    n, d = rng.randint(1, 8) if rng.rand() < .98 else rng.randint(100, 1500), rng.randint(1, 13) if rng.rand() < .9 else rng.randint(13, 41)
    X = rng.uniform(-1, 1, (n, d)) * 10.0 ** rng.randint(-2, 3) + rng.choice([0.0, 1.0])
    if rng.rand() < .15:
        X = np.round(X).astype(int)
    X0 = X.copy()
    if d > 1:
        h.nontrivial((n, d))
    h.sample(n=n, d=d)
    one = np.ones((n, 1))
    h.check(np.array_equal(Ordinary()(X), one), 'Ordinary', X=X)
    h.check(cols(np.asarray(Linear()(X)), np.hstack([one, X])), 'Linear', X=X)
    q = [X[:, j] * X[:, k] for j in range(d) for k in range(j, d)]
    h.check(cols(np.asarray(Quadratic()(X)), np.hstack([one, X, np.array(q).T.reshape(n, -1)])), 'Quadratic', X=X, d=d)
    h.check(np.array_equal(X, X0), 'argument untouched')


CASES = [('basis', case, 400, 5000)]
