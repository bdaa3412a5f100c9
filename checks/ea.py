"""the evolutionary optimizers against an arbitrary objective

The objective is any deterministic function that is evaluated row by row
(bo.rowval).  The stub keeps a ghost record of every value it returned, one row
per call, and of the lowest value it has returned up to each call, for the history
claims."""
from base import *
import bo

M = 'mfpml.optimization.evolutionary_algorithms'


class Objective:
    _vc_heap = True

    def __init__(self, v, np_, d, ds, args, ngen, bounds):
        self.bounds = bounds
        self.v, self.np, self.d, self.ds, self.args = v, np_, d, ds, args
        self.calls = SNum(ZERO)
        self.ev = newarr(lambda idx: app('ev0', list(idx)), (to_poly(ngen) + ONE, to_poly(np_)), tag='num')
        self.low = newarr(lambda idx: app('low0', list(idx)), (to_poly(ngen) + ONE,), tag='num')   # lowest of the calls so far

    def __call__(self, X, *args):
        v = self.v
        X = asarr(X)
        if self.bounds:
            v.ensure('extra arguments are handed over unchanged', And(len(args) == len(self.args), *[a is c for a, c in zip(args, self.args)]))
        v.ensure_shape('a whole population of the asked size', X, (self.np, self.d))
        if self.bounds:
            v.ensure_forall('every point lies within the bounds', [self.np, self.d], lambda i, j: inside(self.ds, X, i, j))
        Y = bo.rowval('obj', X)
        k = self.calls
        v.ensure('at most one evaluation of the population per generation', And(k >= 0, k <= SNum(self.ev._shape[0]) - 1))
        f = Y.nsnap()
        m = Y.min()
        if to_poly(k) is not ZERO:
            m = SNum(ITE(to_bool(eqn(k, SNum(ZERO))), to_poly(m), to_poly(np_().minimum(self.low[k - 1], m))))
        self.low[k] = m
        self.ev[k, :] = newarr(lambda idx: f((idx[0], ZERO)), (to_poly(self.np),), tag='num')
        self.calls = k + 1
        return Y


def inside(ds, X, i, j):
    return And(E(ds, j, 0) <= E(X, i, j), E(X, i, j) <= E(ds, j, 1))


def all_inside(ds, X, n, d):
    i, j = uvar('b', 'I', 0, to_poly(n)), uvar('b', 'I', 0, to_poly(d))
    return FORALL([i, j], IMPL(AND(bo.within(i, n), bo.within(j, d)), inside(ds, X, SNum(P(i)), SNum(P(j)))))


def rows(n, f):
    i = uvar('b', 'I', 0, to_poly(n))
    return FORALL([i], IMPL(bo.within(i, n), to_bool(f(SNum(P(i))))))


def objrow(X, i):
    return SNum(app('obj', [bo.rowcode(X, to_poly(i))]))


def build(v, cls, kw, minpop=1, bounds=True):
    R = setup(v)
    K = getattr(R.load(M), cls)
    d, n, g = v.dim('d'), v.dim('np', minpop), v.dim('ngen')
    args = (v.real('a0'), v.array('a1', v.dim('na')))
    ds = box(v, d)
    f = Objective(v, n, d, ds, args, g, bounds)
    o = K(n, g, **kw)
    return o, f, d, n, g, ds, args
