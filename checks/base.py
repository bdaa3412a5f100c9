"""shared scenario helpers (the specification language of checks/*.py)"""
import explore
import loader
import ctx as CX
import ir
from ir import *
from sym import *
import arr as A
import np_shim as N
import vc


def setup(v, overrides=None):
    """a fresh extraction of the package; global RNG in an arbitrary state"""
    R = loader.Registry(overrides)
    v.c.rng = N.RNG(SNum(P(var('rng0', 'I'))))
    v.c.ghost['entropy'] = lambda: SNum(v.c.fresh('entropy', 'I'))
    v.c.ghost['seeds'] = []       # every seed handed to a generator
    v.c.ghost['lhs'] = []         # every Latin hypercube drawn: (state, d, n)
    v.c.ghost['choice'] = []      # every draw without replacement
    return R


def num(x):
    return SNum(P(x))


def fl(t):
    """the exact decimal t"""
    return vc.C(t)


def Sum(n, fn):
    """Sum_{j<n} fn(j)"""
    j = uvar('s', 'I', P(0), to_poly(n))
    return SNum(SUM(j, to_poly(n), to_poly(fn(SNum(P(j))))))


def Prod(n, fn):
    j = uvar('s', 'I', P(0), to_poly(n))
    return SNum(PROD(j, to_poly(n), to_poly(fn(SNum(P(j))))))


def E(a, *idx):
    """a[idx] as a number"""
    a = asarr(a)
    return SNum(to_poly(a.at(*[SNum(to_poly(i)) for i in idx])))


def spec(shape, fn):
    """array given elementwise"""
    return newarr(lambda idx: to_poly(fn(*[SNum(P(i)) for i in idx])), [to_poly(s) for s in shape], tag='num')


def exp(x):
    return SNum(EXP(to_poly(x)))


def sqrt(x):
    return SNum(SQRT(to_poly(x)))


def absv(x):
    return SNum(fnapp("abs", to_poly(x)))


def pow10(x):
    return vc.pow_(10, x)


def b(x):
    return to_bool(x)


def And(*xs):
    return AND(*[to_bool(x) for x in xs])


def Or(*xs):
    return OR(*[to_bool(x) for x in xs])


def Not(x):
    return NOT(to_bool(x))


def Imp(a, c):
    return IMPL(to_bool(a), to_bool(c))


def eqn(a, c):
    return EQ(to_poly(a), to_poly(c))


def iv(x):
    """1 if x else 0"""
    return SNum(IV(to_bool(x)))


def rng_box(v, arr, lo, hi, strict=False):
    """precondition: lo[j] <= arr[i, j] <= hi[j] for all i, j"""
    raise NotImplementedError


def np_():
    """the numpy contracts, for specifications written in matrix form"""
    return N.build()['numpy']


def rowkey(X, i):
    """the i-th row of X as one argument"""
    f = asarr(X).nsnap()
    return N.vlam(lambda j: f((to_poly(i), j[0])), asarr(X)._shape[1])


class RowBasis:
    """an arbitrary regression basis: each row of the output is a function of
    the same row of the input (contract of a user supplied basis)"""

    def __init__(self, p, name='basis'):
        self.p, self.name = p, name

    def __call__(self, X):
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError('basis expects a 2-d array')
        f = X.nsnap()
        return newarr(lambda idx: app(self.name, [N.vlam(lambda j: f((idx[0], j[0])), X._shape[1]), idx[1]]),
                      (X._shape[0], to_poly(self.p)), tag='num')


def box(v, d, name='ds', pos=True):
    """a design space: d rows (low, high), low < high"""
    ds = v.array(name, d, 2)
    k = uvar('b', 'I', 0, to_poly(d))
    f = ds.nsnap()
    rng = AND(NOT(mkb('lt', (P(k),))), mkb('lt', (P(k) - to_poly(d),)))
    v.c.assume(FORALL([k], IMPL(rng, LT(f((P(k), ZERO)), f((P(k), ONE))))))
    return ds


class KernelStub:
    """contract of models.kernels.RBF (established by C05), for callers: entry
    (i, j) is k(row i of X, row j of Y; parameters) + 1e-10 [i = j], with k an
    arbitrary symmetric function; `set_params(p)` and `kernel(X, Y, p)` use the
    same k(.,.; p)."""
    _vc_heap = True

    def __init__(self, v, d, th0=None, name='kern', jitter=True):
        self.name = name
        self.jitter = jitter
        self.num_para = d
        self.p0 = th0 if th0 is not None else v.array(name + '_th0', d)
        self.raw = self.p0
        lo, hi = v.array(name + '_lo', d), v.array(name + '_hi', d)
        self._get_low_bound, self._get_high_bound = lo, hi
        f, g = lo.nsnap(), hi.nsnap()
        k = uvar('b', 'I', 0, to_poly(d))
        rng = AND(NOT(mkb('lt', (P(k),))), mkb('lt', (P(k) - to_poly(d),)))
        v.c.assume(FORALL([k], IMPL(rng, LE(f((P(k),)), g((P(k),))))))
        self._get_num_para = d
        self._get_bounds = newarr(lambda idx: ITE(EQ(idx[1], ZERO), f((idx[0],)), g((idx[0],))), (to_poly(d), ONE + ONE),
                                  tag='num')

    def mat(self, X, Y, raw):
        X, Y = A.atleast_2d(asarr(X)), A.atleast_2d(asarr(Y))
        A.contract_dim(X._shape[1], Y._shape[1])
        raw = asarr(raw)
        A.contract_dim(raw._shape[-1], to_poly(self.num_para))
        if raw.ndim == 2:
            raw = raw[0]
        f, g, w = X.nsnap(), Y.nsnap(), raw.nsnap()
        d = X._shape[1]
        kw = N.vlam(lambda j: w((j[0],)), to_poly(self.num_para))
        nm = self.name

        def el(idx):
            a = N.vlam(lambda j: f((idx[0], j[0])), d)
            c = N.vlam(lambda j: g((idx[1], j[0])), d)
            return app(nm, [a, c, kw]) * app(nm, [c, a, kw]) + (IV(EQ(idx[0], idx[1])) * to_poly(fl('1e-10')) if self.jitter else ZERO)
        return newarr(el, (X._shape[0], Y._shape[0]), tag='num')

    def __call__(self, X, Y, param):
        return self.mat(X, Y, param)

    def get_kernel_matrix(self, X, Y):
        return self.mat(X, Y, self.raw)

    def set_params(self, p):
        self.raw = A.copy(asarr(p))

    @property
    def param(self):
        return vc.pow_(10, self.raw)

    def __deepcopy__(self, memo):
        k = KernelStub.__new__(KernelStub)
        k.__dict__.update(self.__dict__)
        return k


def kriging(K, f, y, kn, fn):
    """universal kriging: mean (m, 1), variance factor and process variance, for
    the n x n covariance K, regression values f (n, p), responses y (n, 1),
    cross covariances kn (n, m) and regression values fn (m, p)"""
    np = np_()
    n, m = y.shape[0], kn.shape[1]
    Ki = np.linalg.inv(K)
    A_ = np.linalg.inv(np.dot(f.T, np.dot(Ki, f)))
    beta = np.dot(A_, np.dot(f.T, np.dot(Ki, y)))
    r = y - np.dot(f, beta)
    gamma = np.dot(Ki, r)
    mean = np.dot(fn, beta) + np.dot(kn.T, gamma)
    s2 = np.dot(r.T, gamma) / n
    Rm = fn.T - np.dot(f.T, np.dot(Ki, kn))
    var = spec((m, 1), lambda i, j: E(s2, 0, 0) * (1 - E(np.dot(kn.T, np.dot(Ki, kn)), i, i)
                                                   + E(np.dot(Rm.T, np.dot(A_, Rm)), i, i)))
    return mean, var


def scaled(A_, ds):
    q, d = A_.shape
    return spec((q, d), lambda i, j: (E(A_, i, j) - E(ds, j, 0)) / (E(ds, j, 1) - E(ds, j, 0)))


def ensure_std(v, name, std, var, m):
    """std >= 0 and std^2 = max(var, 0)"""
    v.ensure_shape(name, std, (m, 1))
    v.ensure_forall(name, [m], lambda i: And(
        E(std, i, 0) >= 0, Or(eqn(E(std, i, 0) ** 2, E(var, i, 0)), And(E(var, i, 0) <= 0, eqn(E(std, i, 0), 0)))))


def same(v, name, a, c):
    """the two arguments are the same array value (shape and entries)"""
    return v.ensure_eq(name, asarr(a), asarr(c))


class ModelStub:
    """contract of a surrogate (GaussianProcessRegression; C07, C12), for
    callers: after `train(X, Y)`, `predict` is row by row, the mean and the
    standard deviation >= 0 are functions of the row and of the training set;
    the mean does not depend on return_std."""
    _vc_heap = True

    def __init__(self, v, d, name='lf', noise=None, trained=False):
        self.v, self.d, self.name = v, d, name
        self.trained = 1 if trained else 0
        self.X = self.Y = None
        self.noise = noise
        self.noise_prior = noise
        self.calls = []

    def train(self, X, Y):
        self.X, self.Y = A.copy(asarr(X)), A.copy(asarr(Y))
        self.sample_x, self.sample_y = self.X, A.reshape(self.Y, (-1, 1))
        self.trained = self.trained + 1
        if self.noise_prior is None:
            self.noise = SNum(self.sym('noise', []))
            self.v.c.fact(LT(ZERO, self.noise.p))

    bydata = False

    def sym(self, what, args):
        """a value determined by the training set (and args)"""
        if not self.bydata:
            return app('%s%d_%s' % (self.name, self.trained, what), args or [ZERO])
        return app('%s_%s' % (self.name, what), self.key() + args)

    def key(self):
        a, c = uvar('b', 'I', 0, self.X._shape[0]), uvar('b', 'I', 0, self.X._shape[1])
        f, g = self.X.nsnap(), asarr(self.Y).nsnap()
        return [lam([a, c], f((P(a), P(c)))), lam([a], g((P(a), ZERO) if asarr(self.Y).ndim == 2 else (P(a),)))]

    def predict(self, X, return_std=False):
        if not self.trained:
            raise AttributeError('not trained')
        X = A.atleast_2d(asarr(X))
        A.contract_dim(X._shape[1], to_poly(self.d))
        f = X.nsnap()
        row = lambda i: N.vlam(lambda j: f((i, j[0])), X._shape[1])
        mean = newarr(lambda idx: self.sym('mean', [row(idx[0])]), (X._shape[0], ONE), tag='num')
        if return_std is False or return_std is None:
            return mean
        std = newarr(lambda idx: fnapp("abs", self.sym('std', [row(idx[0])])), (X._shape[0], ONE), tag='num')
        return mean, std

    @property
    def _num_samples(self):
        return self.sample_x.shape[0]


def bounds_arr(b_):
    """the bounds handed to scipy, as an (n, 2) array"""
    return newarr(lambda idx: ITE(EQ(idx[1], ZERO), b_[0]((idx[0],)), b_[1]((idx[0],))), (b_[2], ONE + ONE), tag='num')
