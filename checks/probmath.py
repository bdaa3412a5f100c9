"""the number system of checks/formulas.py for the proofs"""
from base import *


class M:
    pi = SNum(P(PI))
    D = staticmethod(lambda t: SNum(P(fl(t))))
    sin = staticmethod(lambda x: SNum(fnapp('sin', to_poly(x))))
    cos = staticmethod(lambda x: SNum(fnapp('cos', to_poly(x))))
    log = staticmethod(lambda x: SNum(fnapp('log', to_poly(x))))
    exp = staticmethod(exp)
    sqrt = staticmethod(sqrt)
    pow = staticmethod(lambda a, e: SNum(fnapp('pow', to_poly(a), to_poly(e))))
    ite = staticmethod(lambda c, a, b_: SNum(ITE(to_bool(c), to_poly(a), to_poly(b_))))
    le = staticmethod(lambda a, b_: SBool(LE(to_poly(a), to_poly(b_))))
    sum = staticmethod(Sum)
    prod = staticmethod(Prod)


def point(X, i, d):
    return [E(X, i, j) for j in range(d)]


def inside(v, X, rows, box_):
    """precondition: every row of X lies in the box"""
    for j, (lo, hi) in enumerate(box_):
        k = uvar('b', 'I', 0, to_poly(rows))
        f = asarr(X).nsnap()
        rng = AND(NOT(mkb('lt', (P(k),))), mkb('lt', (P(k) - to_poly(rows),)))
        q = f((P(k), P(j)))
        v.c.assume(FORALL([k], IMPL(rng, AND(LE(P(fl(str(lo))), q), LE(q, P(fl(str(hi))))))))
