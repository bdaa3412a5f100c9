"""checks/formulas.py on IEEE doubles"""
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
import formulas as F  # noqa


class M:
    pi = math.pi
    D = staticmethod(float)
    sin, cos, log, exp, sqrt = math.sin, math.cos, math.log, math.exp, math.sqrt
    sin, cos, log, exp, sqrt = map(staticmethod, (sin, cos, log, exp, sqrt))
    pow = staticmethod(lambda a, e: float(a) ** e)
    ite = staticmethod(lambda c, a, b: a if c else b)
    le = staticmethod(lambda a, b: a <= b)
    sum = staticmethod(lambda n, f: sum(f(j) for j in range(n)))
    prod = staticmethod(lambda n, f: math.prod(f(j) for j in range(n)))


def points(rng, box, n):
    """n points of a box: interior, faces, corners, centre, integers"""
    import numpy as np
    lo = np.array([float(a) for a, _ in box])
    hi = np.array([float(b) for _, b in box])
    X = lo + rng.rand(n, len(box)) * (hi - lo)
    for i in range(n):
        k = rng.randint(6)
        if k == 0:
            X[i] = np.where(rng.rand(len(box)) < .5, lo, hi)
        elif k == 1:
            j = rng.randint(len(box))
            X[i, j] = (lo, hi)[rng.randint(2)][j]
        elif k == 2:
            X[i] = np.clip(np.round(X[i]), lo, hi)
        elif k == 3:
            X[i] = (lo + hi) / 2
        elif k == 4:
            X[i] = np.clip(lo + (hi - lo) * np.round((X[i] - lo) / (hi - lo) * 20) / 20, lo, hi)
    return X


def close(a, b):
    return abs(a - b) <= 1e-8 * max(1.0, abs(b)) or (math.isnan(a) and math.isnan(b))
