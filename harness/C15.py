import numpy as np
from math import erf, exp, pi, sqrt
from mfpml.models.gaussian_process import GaussianProcessRegression as GP
from mfpml.optimization import sf_uncons_acqusitions as S
from mfpml.optimization.evolutionary_algorithms import DE, PSO
from ref import Opt, fun, pts, space

RULE = ('stub surrogates with random means, deviations (0 included) and training responses, trained Gaussian processes, batches of 1-30 '
        'points, kappa random; proposals with the default and with user optimizers; non-trivial: batch > 1')
BOUND = 'd <= 4; batch <= 30, rarely <= 1199'
Phi = np.vectorize(lambda z: .5 * (1 + erf(z / sqrt(2))))
phi = np.vectorize(lambda z: exp(-min(z * z / 2, 700)) / sqrt(2 * pi))


class Stub:
    def __init__(self, rng, d, ds=None):
        self.num_dim = d
        self.bounds = self.design_space = ds if ds is not None else space(rng, d)
        self.zero = rng.rand() < .2
        self.floor = 0.
        self.train(rng)

    def train(self, rng):
        d = self.num_dim
        self.f, self.g = fun(rng, d), fun(rng, d)
        n = rng.randint(2, 9)
        self.sample_x = self.bounds[:, 0] + rng.rand(n, d) * (self.bounds[:, 1] - self.bounds[:, 0])
        self.sample_y = self.f(self.sample_x) + .3 * rng.randn(n, 1)

    def predict(self, X, return_std=False):
        m, s = self.f(X), np.abs(self.g(X)) * .1 + self.floor
        if self.zero:
            s = s * (np.arange(len(s)) % 2)[:, None]
        return (m, s) if return_std else m


def value(kind, kap, y, s, fm):
    t = fm - y
    z = t / (s + 1e-9)
    if kind == 'LCB':
        return kap[0] * y - kap[1] * s
    if kind == 'EI':
        return -(t * Phi(z) + s * phi(z))
    return -Phi(z)


def mk(rng, kind, opt=None):
    kap = [rng.uniform(.1, 3), rng.uniform(0, 3)]
    return (S.LCB(optimizer=opt, kappa=list(kap)) if kind == 'LCB' else getattr(S, kind)(optimizer=opt)), kap


def case(h, rng):
    d = rng.randint(1, 5)
    m = rng.randint(1, 31) if rng.rand() < .98 else rng.randint(200, 1200)
    s = Stub(rng, d)
    warm = lambda: s.train(rng)
    if rng.rand() < .3:
        ds = space(rng, d)
        s = GP(design_space=ds, optimizer=Opt(rng, .3, 1), noise_prior=[0.0, None][rng.randint(2)], optimizer_restart=0)
        XS = pts(rng, ds, rng.randint(d + 2, d + 9))
        warm = lambda: s.train(XS, fun(rng, d)(XS))
        warm()
        h.check(s.bounds.shape == ds.shape and np.array_equal(s.bounds, ds) and s.num_dim == d, 'model attributes')
    kind = ['LCB', 'EI', 'PI'][rng.randint(3)]
    acq, kap = mk(rng, kind)
    b = np.asarray(s.bounds)
    X = b[:, 0] + rng.rand(m, d) * (b[:, 1] - b[:, 0])
    if rng.rand() < .4:
        # the object was used before: with another model, and with this one
        o = Stub(rng, rng.randint(1, 5))
        acq.eval(o.sample_x, o)
        acq.eval(X, s)
        warm()
    fm = np.min(s.sample_y)
    y, sd = s.predict(X, return_std=True)
    want = value(kind, kap, y, sd, fm)
    tol = 1e-9 * (1 + np.abs(y).max() + np.abs(fm))
    got = acq.eval(X, s)
    ok = np.shape(got) == (m, 1) and np.all(np.abs(got - want) <= tol)
    h.check(ok, '%s: value at every point' % kind, got=got, want=want, mean=y, std=sd, fmin=fm, kappa=kap)
    i = rng.randint(m)
    y1, s1 = s.predict(X[i:i + 1], return_std=True)
    want = value(kind, kap, y1, s1, fm)
    for x in (X[i], X[i:i + 1]):
        got = acq.eval(x, s)
        h.check(np.size(got) == 1 and abs(np.ravel(got)[0] - want[0, 0]) <= tol, '%s: value at one point' % kind, got=got, want=want,
                mean=y1, std=s1, fmin=fm)
    h.nontrivial((kind, d, m)) if m > 1 else None
    h.sample(kind=kind, d=d, m=m)


class Rec:
    def __init__(self, rng, m):
        self.rng, self.m, self.seen = rng, m, None

    def run_optimizer(self, func, num_dim, design_space, print_info=False, save_step_results=False, stopping_error=None, args=()):
        ds = np.asarray(design_space)
        X = ds[:, 0] + self.rng.rand(self.m, num_dim) * (ds[:, 1] - ds[:, 0])
        y = func(X, *args)
        k = int(np.argmin(y))
        self.seen = (num_dim, ds.copy(), X, np.array(y), X[k])
        return {'best_x': X[k], 'best_y': y[k]}, float(np.ravel(y)[k]), X[k]


def user(h, rng):
    d = rng.randint(1, 5)
    s = Stub(rng, d)
    s.zero = False
    kind = ['LCB', 'EI', 'PI'][rng.randint(3)]
    o = Rec(rng, rng.randint(2, 20))
    acq, kap = mk(rng, kind, o)
    if rng.rand() < .4:
        acq.query(surrogate=Stub(rng, rng.randint(1, 5)))
        acq.query(surrogate=s)
        s.train(rng)
    x = acq.query(surrogate=s)
    nd, ds, X, y, bx = o.seen
    h.check(nd == d and np.array_equal(ds, s.bounds), 'user optimizer: design space')
    want = value(kind, kap, *s.predict(X, return_std=True), np.min(s.sample_y))
    h.check(y.shape == want.shape and np.allclose(y, want, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max())),
            'user optimizer: acquisition values of the population', got=y, want=want)
    h.check(np.array_equal(np.ravel(x), bx), 'user optimizer: proposal', got=x, want=bx)
    h.nontrivial(('user', kind, d))


def default(h, rng):
    """the proposal is (near) the global minimiser over the design space"""
    d = rng.randint(1, 3)
    s = Stub(rng, d)
    s.zero = False
    # deviations bounded away from 0: no needle-like optima
    g = s.bounds[:, 0] + rng.rand(500, d) * (s.bounds[:, 1] - s.bounds[:, 0])
    s.floor = .3 * np.std(s.f(g)) + .05 * np.std(s.g(g))
    kind = ['LCB', 'EI', 'PI'][rng.randint(3)]
    acq, kap = mk(rng, kind)
    if rng.rand() < .4:
        acq.optimizer = [PSO(num_pop=40, num_gen=60), DE(num_pop=40, num_gen=60)][rng.randint(2)]
    ea = acq.optimizer is not None
    x = np.atleast_2d(acq.query(surrogate=s))
    b = s.bounds
    h.check(x.shape == (1, d) and np.all(x >= b[:, 0]) and np.all(x <= b[:, 1]), 'proposal within the design space', got=x, ds=b)
    g = b[:, 0] + rng.rand(4000, d) * (b[:, 1] - b[:, 0])
    fm = np.min(s.sample_y)
    v = value(kind, kap, *s.predict(g, return_std=True), fm)
    sp = v.max() - v.min()
    # the search is a heuristic: one of several proposals has to be good
    for _ in range(8):
        got = value(kind, kap, *s.predict(x, return_std=True), fm)[0, 0]
        if got <= v.min() + (.1 if ea else 2e-2) * sp + 1e-6:
            break
        x = np.atleast_2d(acq.query(surrogate=s))
    h.check(got <= v.min() + (.1 if ea else 2e-2) * sp + 1e-6, 'proposal minimises the acquisition function', got=got, best=v.min(), kind=kind)
    h.nontrivial(('default', kind, d))


CASES = [('values', case, 900, 12000), ('user optimizer', user, 150, 2000), ('proposal', default, 24, 300)]
