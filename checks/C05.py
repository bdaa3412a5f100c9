"""C05  RBF kernel matrix"""
from base import *

TRUSTED = []


def kernel_of(v, R, d, bounds=True):
    K = R.load('mfpml.models.kernels')
    th = v.array('th', d)
    k = K.RBF(th)
    return K, k, th


def want(X, Y, w):
    n, m, d = X.shape[0], Y.shape[0], X.shape[1]
    return spec((n, m), lambda a, c: exp(-Sum(d, lambda j: w(j) * (E(X, a, j) - E(Y, c, j)) ** 2))
                + iv(a == c) * fl('1e-10'))


def s_matrix(v):
    R = setup(v)
    n, m, d = v.dim('n'), v.dim('m'), v.dim('d')
    K, k, th = kernel_of(v, R, d)
    X, Y = v.array('X', n, d), v.array('Y', m, d)
    M = k.get_kernel_matrix(X, Y)
    v.ensure_eq('get_kernel_matrix == exp(-sum 10^theta_j (x_j-y_j)^2) + jitter', M,
                want(X, Y, lambda j: pow10(E(th, j))))


def s_call(v):
    R = setup(v)
    n, m, d = v.dim('n'), v.dim('m'), v.dim('d')
    K, k, th = kernel_of(v, R, d)
    X, Y, p = v.array('X', n, d), v.array('Y', m, d), v.array('p', d)
    M = k(X, Y, p)
    v.ensure_eq('__call__ uses the given parameters', M, want(X, Y, lambda j: pow10(E(p, j))))
    M = k.get_kernel_matrix(X, Y)
    v.ensure_eq('__call__ leaves the stored parameters alone', M, want(X, Y, lambda j: pow10(E(th, j))))
    k.set_params(p)
    M2 = k.get_kernel_matrix(X, Y)
    v.ensure_eq('set_params installs 10**params', M2, want(X, Y, lambda j: pow10(E(p, j))))


def s_1d(v):
    R = setup(v)
    m, d = v.dim('m'), v.dim('d')
    K, k, th = kernel_of(v, R, d)
    x, Y = v.array('x', d), v.array('Y', m, d)
    M = k.get_kernel_matrix(x, Y)
    X = spec((1, d), lambda i, j: E(x, j))
    v.ensure_eq('a single point counts as one row', M, want(X, Y, lambda j: pow10(E(th, j))))


def s_sym(v):
    R = setup(v)
    n, d = v.dim('n'), v.dim('d')
    K, k, th = kernel_of(v, R, d)
    X = v.array('X', n, d)
    M = k.get_kernel_matrix(X, X)
    v.ensure_eq('symmetric', M, M.T)
    v.ensure_forall('unit diagonal plus jitter', [n], lambda i: eqn(E(M, i, i), 1 + fl('1e-10')))

    def inrange(i, j):
        v.sum_nonneg('weighted squared distances', d, lambda q: pow10(E(th, q)) * (E(X, i, q) - E(X, j, q)) ** 2)
        return Imp(i != j, And(E(M, i, j) > 0, E(M, i, j) <= 1))
    v.ensure_forall('correlations lie in (0, 1]', [n, n], inrange)


def s_bounds(v):
    R = setup(v)
    d = v.dim('d')
    K = R.load('mfpml.models.kernels')
    lo, hi = v.real('lo'), v.real('hi')
    v.assume(lo <= hi)
    k = K.RBF(v.array('th', d), bounds=vc.L([lo, hi]))
    v.ensure('one log-bound pair per dimension', And(k._get_num_para == d))
    lb, ub = k._get_low_bound, k._get_high_bound
    v.ensure_shape('bounds', k._get_bounds, (d, 2)) if hasattr(k, '_get_bounds') else None
    v.ensure_eq('lower bounds', A.from_slist(lb) if isinstance(lb, list) else lb, spec((d,), lambda j: lo))
    v.ensure_eq('upper bounds', A.from_slist(ub) if isinstance(ub, list) else ub, spec((d,), lambda j: hi))


DTYPES = True             # arguments of whole numbers too
SCENARIOS = [('matrix', s_matrix), ('call', s_call), ('single point', s_1d), ('symmetry', s_sym), ('bounds', s_bounds)]
