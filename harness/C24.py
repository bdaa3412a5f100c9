import importlib
import numpy as np
from fmath import F, M, points, close

RULE = 'every class, 1..12 points of the declared box incl. corners, faces, grid points, integer arrays; non-trivial: >1 row'
BOUND = '<= 12 rows (rarely <= 1499), <= 7 dimensions'


def cls(c, mod):
    return getattr(importlib.import_module(mod), c)


def case(h, rng):
    c = sorted(F.SINGLE)[rng.randint(len(F.SINGLE))]
    mod, d, ms = F.SINGLE[c]
    n = rng.randint(1, 13) if rng.rand() < .97 else rng.randint(100, 1500)
    X = points(rng, F.BOX[c], n)
    if rng.rand() < .15:
        X = np.round(X).astype(int)
    if rng.rand() < .2:
        X = np.asfortranarray(X)
    K = cls(c, mod)
    h.nontrivial((c, n)) if n > 1 else None
    h.sample(problem=c, X=X)
    for m, form in ms.items():
        y = getattr(K(), m)(X)
        h.check(np.shape(y) == (n, 1), '%s.%s: one value per row' % (c, m), X=X, y=y)
        w = np.array([[form(M, [float(t) for t in r])] for r in X])
        h.check(np.shape(y) == w.shape and all(close(a, b) for a, b in zip(np.ravel(y), np.ravel(w))),
                '%s.%s: value of the formula' % (c, m), X=X, y=y, want=w)


def scal(h, rng):
    d, n = rng.randint(1, 8), rng.randint(1, 8)
    A, T = cls('Ackley', F.SF), cls('Thevenot', F.SF)
    h.nontrivial((d, n)) if n > 1 and d > 1 else None
    X = points(rng, [(-32, 32)] * d, n)
    if rng.rand() < .2:
        X = np.round(X).astype(int)
    a, b, c = (20, .2, 2 * np.pi) if rng.rand() < .5 else tuple(rng.uniform(.1, 7, 3))
    o = A(int(d)) if (a, b) == (20, .2) else A(int(d), a, b, c)
    y = o.f(X)
    w = np.array([[F.ackley(M, lambda j: float(r[j]), d, a, b, c)] for r in X])
    h.check(np.shape(y) == (n, 1) and all(close(p, q) for p, q in zip(y.ravel(), w.ravel())), 'Ackley.f', X=X, a=a, b=b, c=c)
    h.check(o.get_param() == {'a': a, 'b': b, 'c': c}, 'Ackley parameters')
    X = points(rng, [(-2 * np.pi, 2 * np.pi)] * d, n)
    if rng.rand() < .2:
        X = np.round(X).astype(int)
    m, be = (5, 15) if rng.rand() < .5 else (rng.randint(1, 6), rng.uniform(5, 20))
    o = T(int(d)) if (m, be) == (5, 15) else T(int(d), m, be)
    y = o.f(X)
    w = np.array([[F.thevenot(M, lambda j: float(r[j]), d, m, be)] for r in X])
    h.check(np.shape(y) == (n, 1) and all(close(p, q) for p, q in zip(y.ravel(), w.ravel())), 'Thevenot.f', X=X, m=m, beta=be)


CASES = [('fixed', case, 1500, 20000), ('scalable', scal, 500, 6000)]
