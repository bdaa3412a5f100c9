import importlib
import numpy as np
from fmath import F, M, points, close

RULE = 'every problem, 1..12 points of the declared box incl. corners and faces, lists of sample sets; non-trivial: >1 row'
BOUND = '<= 12 rows, rarely <= 1499'


def cls(c, mod):
    return getattr(importlib.import_module(mod), c)


def want(form, X):
    return np.array([[form(M, [float(t) for t in r])] for r in X])


def ok(y, w):
    return np.shape(y) == np.shape(w) and all(close(a, b) for a, b in zip(np.ravel(y), np.ravel(w)))


def case(h, rng):
    c = sorted(F.MULTI)[rng.randint(len(F.MULTI))]
    mod, d, ms = F.MULTI[c]
    n, k = rng.randint(1, 13) if rng.rand() < .97 else rng.randint(100, 1500), rng.randint(1, 13)
    X, Y = points(rng, F.BOX[c], n), points(rng, F.BOX[c], k)
    if rng.rand() < .1:
        X = np.round(X).astype(int) if c != 'mf_Borehole' else X
    K = cls(c, mod)
    o = K()
    h.nontrivial((c, n)) if n > 1 else None
    h.sample(problem=c, X=X)
    X0, Y0 = X.copy(), Y.copy()
    for m, form in ms.items():
        y = getattr(o, m)(X)
        h.check(np.shape(y) == (n, 1), '%s.%s: one value per row' % (c, m), X=X, y=y)
        h.check(np.all(np.isfinite(y)), '%s.%s: finite' % (c, m), X=X, y=y)
        w = want(form, X)
        h.check(ok(y, w), '%s.%s: value of the formula' % (c, m), X=X, y=y, want=w)
    args = [X, Y] if rng.rand() < .7 else [X.tolist(), Y.tolist()]
    out = o(args)
    h.check(len(out) == 2 and ok(out[0], want(ms['hf'], X)), '%s(): high fidelity first' % c, X=X, Y=Y)
    h.check(len(out) == 2 and ok(out[1], want(ms['lf'], Y)), '%s(): then low fidelity' % c, X=X, Y=Y)
    out = o([X])
    h.check(len(out) == 1 and ok(out[0], want(ms['hf'], X)), '%s(): one fidelity' % c, X=X)
    h.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), '%s: samples left alone' % c)


def hole(h, rng):
    K = cls('mf_Borehole', F.MF)
    X = points(rng, F.BOX['mf_Borehole'], rng.randint(1, 6))
    a, b = rng.uniform(1, 9), rng.uniform(.5, 3)
    w = np.array([[F.borehole_ab(M, [float(t) for t in r], a, b)] for r in X])
    h.check(ok(K.base(X, a, b), w), 'mf_Borehole.base', X=X, a=a, b=b)


CASES = [('problems', case, 2000, 20000), ('borehole', hole, 60, 300)]
