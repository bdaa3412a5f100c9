"""C06  regression bases"""
from base import *


def s_ordinary(v):
    R = setup(v)
    n, d = v.dim('n'), v.dim('d')
    B = R.load('mfpml.models.basis_functions')
    X = v.array('X', n, d)
    v.ensure_eq('Ordinary: a column of ones', B.Ordinary()(X), spec((n, 1), lambda i, j: SNum(ONE)))


def s_linear(v):
    R = setup(v)
    n, d = v.dim('n'), v.dim('d')
    B = R.load('mfpml.models.basis_functions')
    X = v.array('X', n, d)
    F = B.Linear()(X)
    v.ensure_shape('Linear: d + 1 columns', F, (n, d + 1))
    v.ensure_forall('Linear: constant column', [n], lambda i: eqn(E(F, i, 0), 1))
    v.ensure_forall('Linear: column 1 + j is x_j', [n, d], lambda i, j: eqn(E(F, i, j + 1), E(X, i, j)))


def quad(d):
    def s(v):
        R = setup(v)
        n = v.dim('n')
        B = R.load('mfpml.models.basis_functions')
        X = v.array('X', n, d)
        F = B.Quadratic()(X)
        m = (d + 1) * (d + 2) // 2
        if not v.ensure_shape('Quadratic(%d): (d+1)(d+2)/2 columns' % d, F, (n, m)):
            return
        i = uvar('row', 'I', 0, to_poly(n))
        I = SNum(P(i))
        x = [E(X, I, j) for j in range(d)]
        want = [SNum(ONE)] + x + [x[j] * x[k] for j in range(d) for k in range(j, d)]
        got = [to_poly(E(F, I, c)) for c in range(m)]
        for w in want:
            w = to_poly(w)
            k = [c for c in range(m) if got[c] is not None and is_zero(got[c] - w)]
            if not k:
                v.fail('Quadratic(%d): every monomial of degree <= 2 is a column' % d, ir.show(w))
                return
            got[k[0]] = None
        v.ok('Quadratic(%d): every monomial of degree <= 2 is a column, once' % d, 'normal form')
    return s


DTYPES = True             # arguments of whole numbers too
SCENARIOS = [('ordinary', s_ordinary), ('linear', s_linear)] + [('quadratic d=%d' % d, quad(d)) for d in (1, 2, 3, 4, 5, 6)]
BOUNDED = [{'function': 'basis_functions.Quadratic.__call__', 'bound': 'proved for every number of rows with 1 <= d <= 6;'
            ' larger d by runtime contracts up to d = 40'}]
