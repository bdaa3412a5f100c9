"""callees of the Bayesian optimization loops, by contract

The loops are verified against the contracts of what they call: the sampler
(C01, C03), the problem (any deterministic row by row function), the acquisition
function (any proposal), the surrogate (any; it records what it was trained on).
The problem also keeps the ghost data set: every point it was asked for, in
order, with the value it returned.

Any function of d reals has the form h(sum_j g(j, x_j)) (choose the g(j, .)
additive and independent over the rationals, then the sum determines the point),
so the uninterpreted h and g below stand for every objective."""
from base import *


def rowval(name, X):
    """the values of an arbitrary function at the rows of X, (n, 1)"""
    X = asarr(X)
    return newarr(lambda idx: app(name, [rowcode(X, idx[0])]), (X._shape[0], ONE), tag='num')


def rowcode(X, i):
    f = X.nsnap()
    j = uvar('s', 'I', P(0), X._shape[1])
    return SUM(j, X._shape[1], app('code', [P(j), f((i, P(j)))]))


def attained(best, bx, X, Y, ok=None):
    """some evaluated point i has the response `best` and is the point bx (for
    every reading `code` of the points, hence equal in every coordinate); ok(i):
    further condition on it"""
    X, Y, bx = asarr(X), asarr(Y), A.reshape(asarr(bx), (1, -1))
    A.contract_dim(bx._shape[1], X._shape[1])
    i = uvar('b', 'I', 0, X._shape[0])
    y = Y.nsnap()((P(i), ZERO))
    rng = AND(NOT(mkb('lt', (P(i),))), mkb('lt', (P(i) - X._shape[0],)))
    eqs = [EQ(to_poly(best), y), EQ(rowcode(bx, ZERO), rowcode(X, P(i)))]
    if ok is not None:
        eqs.append(ok(P(i)))
    return NOT(FORALL([i], IMPL(rng, NOT(AND(*eqs)))))


def no_lower(best, Y, ok=None):
    """no response (of an admissible point) is below best"""
    Y = asarr(Y)
    i = uvar('b', 'I', 0, Y._shape[0])
    rng = AND(NOT(mkb('lt', (P(i),))), mkb('lt', (P(i) - Y._shape[0],)))
    if ok is not None:
        rng = AND(rng, ok(P(i)))
    return FORALL([i], IMPL(rng, LE(to_poly(best), Y.nsnap()((P(i), ZERO)))))


def within(i, n):
    """0 <= i < n for a bound variable (kept even where its size is known)"""
    return AND(NOT(mkb('lt', (P(i),))), mkb('lt', (P(i) - to_poly(n),)))


class Ghost:
    """rows evaluated so far and their values"""
    _vc_heap = True

    def __init__(self):
        self.X = self.Y = None
        self.calls = 0

    def add(self, X, Y):
        X, Y = A.copy(asarr(X)), A.copy(asarr(Y))
        self.X = X if self.X is None else np_().vstack((self.X, X))
        self.Y = Y if self.Y is None else np_().vstack((self.Y, Y))
        self.calls = self.calls + 1


class Problem:
    """contract of a single-fidelity problem"""
    _vc_heap = True

    def __init__(self, v, d, optimum, q=None):
        self.v, self.d = v, d
        self.num_dim = d
        self.input_domain = box(v, d)
        self.optimum = optimum
        self.data = Ghost()
        if q is not None:
            self.num_cons = q

    def chk(self, X):
        X = asarr(X)
        self.v.ensure('the problem is called with a list of points', And(X.ndim == 2))
        A.contract_dim(X._shape[1], to_poly(self.d))
        return X

    def f(self, X):
        X = self.chk(X)
        Y = rowval('obj', X)
        self.data.add(X, Y)
        return Y


class Acq:
    """any acquisition function: the k-th proposal is an arbitrary point"""
    _vc_heap = True

    def __init__(self, v, d, flat):
        self.v, self.d, self.flat = v, d, flat
        self.calls = 0
        self.before = lambda kw: None
        self.row = lambda k, j: app('prop', [k, j])

    def point(self):
        k = to_poly(self.calls)
        self.calls = self.calls + 1
        x = newarr(lambda idx: self.row(k, idx[0]), (to_poly(self.d),), tag='num')
        return x if self.flat else A.reshape(x, (1, self.d))

    def query(self, **kw):
        self.before(kw)
        return self.point()


class Surr:
    """a surrogate: records its training set"""
    _vc_heap = True

    def __init__(self, **kw):
        self.kw = kw
        self.X = self.Y = None

    def train(self, X, Y):
        self.X, self.Y = A.copy(asarr(X)), A.copy(asarr(Y))


class Sampler:
    """contract of LatinHyperCube (C01, C03): the plan is a function of its arguments"""
    _vc_heap = True
    name = 'plan'

    def __init__(self, design_space):
        self.design_space = design_space

    def get_samples(self, num_samples, seed=None):
        d = asarr(self.design_space)._shape[0]
        self.v.c.ghost.setdefault('plans', []).append((self.design_space, num_samples, seed))
        return self.v.array(self.name, num_samples, SNum(d))


def is_none(x):
    return x is None


# ----------------------------------------------------------- multi-fidelity
class MFSampler:
    """contract of MFLatinHyperCube (C01-C03)"""
    _vc_heap = True

    def __init__(self, design_space, num_fidelity=None, **kw):
        self.design_space, self.num_fidelity = design_space, num_fidelity

    def get_samples(self, num_samples, seed=None):
        d = SNum(asarr(self.design_space)._shape[0])
        self.v.c.ghost.setdefault('plans', []).append((self.design_space, list(num_samples), seed, self.num_fidelity))
        return vc.L([self.v.array('planH', num_samples[0], d), self.v.array('planL', num_samples[1], d)])


class MFAcq(Acq):
    """any acquisition function: the k-th proposal is any point and any fidelity"""

    def __init__(self, v, d, flat):
        Acq.__init__(self, v, d, flat)
        self.x = newarr(lambda idx: ZERO, (to_poly(d),) if flat else (ONE, to_poly(d)), tag='num')
        self.fid = SNum(ZERO)
        self.pending = SNum(ZERO)

    def query(self, **kw):
        self.before(kw)
        self.v.ensure('the previous proposal was evaluated', eqn(self.pending, 0))
        self.pending = SNum(ONE)
        k = to_poly(self.calls)
        x = self.point()
        self.x = x
        f = app('fid', [k], 'I')
        self.v.c.fact(AND(LE(ZERO, f), LE(f, ONE)))
        self.fid = SNum(f)
        return x, self.fid


class MFProblem(Problem):
    """contract of a two-fidelity problem (C25)"""

    def __init__(self, v, d, optimum):
        Problem.__init__(self, v, d, optimum)
        self.lo = Ghost()
        self.acq = None

    def proposal(self, X, fid):
        if self.acq is None:
            return
        self.v.ensure_eq('the point evaluated is the proposal', X, A.reshape(self.acq.x, (1, self.d)))
        self.v.ensure('evaluated with the proposed fidelity', And(eqn(self.acq.fid, fid), eqn(self.acq.pending, 1)))
        self.acq.pending = SNum(ZERO)

    def hf(self, X):
        X = self.chk(X)
        self.proposal(X, 0)
        Y = rowval('obj', X)
        self.data.add(X, Y)
        return Y

    def lf(self, X):
        X = self.chk(X)
        self.proposal(X, 1)
        Y = rowval('low', X)
        self.lo.add(X, Y)
        return Y

    def __call__(self, Xs):
        return vc.L([self.hf(Xs[0]), self.lf(Xs[1])])


class MFSurr:
    _vc_heap = True

    def __init__(self, **kw):
        self.kw = kw
        self.X0 = self.X1 = self.Y0 = self.Y1 = None

    def train(self, X, Y):
        self.X0, self.X1 = [A.copy(asarr(a)) for a in X]
        self.Y0, self.Y1 = [A.copy(asarr(a)) for a in Y]


def same_rows(a, c):
    """the arrays agree (shape and entries)"""
    a, c = asarr(a), asarr(c)
    if a.ndim != c.ndim:
        return FALSE
    vs = [uvar('b', 'I', 0, s) for s in c._shape]
    rng = AND(*[AND(NOT(mkb('lt', (P(v),))), mkb('lt', (P(v) - s,))) for v, s in zip(vs, c._shape)])
    idx = tuple(P(v) for v in vs)
    return AND(*[EQ(s, t) for s, t in zip(a._shape, c._shape)]), FORALL(vs, IMPL(rng, EQ(a.nsnap()(idx), c.nsnap()(idx))))


# --------------------------------------------------------------- constrained
class CProblem(Problem):
    """contract of a constrained problem: objective and q constraint values, row by row"""

    def __init__(self, v, d, optimum, q):
        Problem.__init__(self, v, d, optimum, q)
        self.q = q
        self.cons = Ghost()

    def f_cons(self, X):
        X = self.chk(X)
        C = newarr(lambda idx: app('con', [idx[1], rowcode(X, idx[0])]), (X._shape[0], to_poly(self.q)), tag='num')
        self.cons.add(X, C)
        return C


def feasible(C):
    """row i meets every constraint (one conjunct per constraint)"""
    C = asarr(C)
    f = C.nsnap()
    q = C._shape[1].const()
    return lambda i: AND(*[LE(f((i, P(j))), ZERO) for j in range(int(q))])


def none_feasible(C):
    C = asarr(C)
    i = uvar('b', 'I', 0, C._shape[0])
    return FORALL([i], IMPL(within(i, SNum(C._shape[0])), NOT(feasible(C)(P(i)))))
