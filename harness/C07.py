import numpy as np
from mfpml.models.gaussian_process import GaussianProcessRegression as GP
from mfpml.models.basis_functions import Linear, Ordinary, Quadratic
from ref import Krig, Opt, close, fun, kern, norm, pts, space

RULE = ('random space, n in 3..14, d in 1..4, basis in {Ordinary, Linear, Quadratic}, noise in {0, given, learned}, hyper-'
        'parameters picked in the box or found by the default search; compared with an independent kriging formula where the '
        'kernel matrix has condition < 1e8; non-trivial: d > 1 or noise > 0')
BOUND = 'n <= 14, d <= 4, condition number < 1e8'


def build(h, rng, default=False):
    d = rng.randint(1, 5)
    reg = [Ordinary, Linear, Quadratic][rng.choice([0, 0, 1, 2])]()
    p = reg(np.zeros((1, d))).shape[1]
    n = rng.randint(p + 2, p + 10)
    ds = space(rng, d)
    X = pts(rng, ds, n)
    f = fun(rng, d)
    Y = f(X)
    kind = rng.randint(3)
    noise = [0.0, float(np.std(Y) * 10 ** rng.uniform(-3, 0)), None][kind]
    if kind:
        Y = Y + (noise or .1 * np.std(Y)) * rng.randn(n, 1)
    opt = None if default else Opt(rng, .3, 1.0)
    gp = GP(design_space=ds, regr=reg, optimizer=opt, noise_prior=noise, optimizer_restart=1)
    gp.train(X.copy(), Y.copy())
    return gp, ds, X, Y, reg, noise, f


def posterior(h, rng, default=False):
    gp, ds, X, Y, reg, noise, f = build(h, rng, default)
    n, d = X.shape
    m = rng.randint(1, 9)
    Xn = pts(rng, ds, m)
    if rng.rand() < .3:
        Xn[0] = X[rng.randint(n)]
    w = gp.kernel.param
    sd, mu = np.std(Y), np.mean(Y)
    if noise is not None:
        h.check(gp.noise == noise, 'noise level is the given one', got=gp.noise, want=noise)
    else:
        h.check(1e-5 * sd * .999 <= gp.noise <= 10 * sd * 1.001, 'learned noise within its bounds', got=gp.noise, sd=sd)
    Xs, Ns = norm(X, ds), norm(Xn, ds)
    K = kern(Xs, Xs, w) + np.eye(n) * (gp.noise / sd) ** 2
    k = Krig(K, reg(Xs), (Y - mu) / sd)
    if k.cond > 1e8 or k.condF > 1e8:
        h.skip()
    if d > 1 or gp.noise > 0:
        h.nontrivial((n, d, m, float(gp.noise)))
    h.sample(n=n, d=d, m=m, noise=gp.noise)
    mean, var = k.at(kern(Xs, Ns, w), reg(Ns))
    mean = mean * sd + mu
    var = var * sd ** 2 + gp.noise ** 2
    tol = 1e-7 * sd * max(1, k.cond ** .5 * 1e-2)
    a = gp.predict(Xn)
    b, std = gp.predict(Xn, return_std=True)
    h.check(close(a, mean, 1e-6, tol), 'mean = kriging predictor', got=a, want=mean, X=X, Y=Y, Xn=Xn, w=w, noise=gp.noise)
    h.check(close(b, mean, 1e-6, tol), 'mean = kriging predictor (with std)', got=b, want=mean)
    h.check(std.shape == (m, 1) and np.all(std >= 0), 'std shape and sign', got=std)
    h.check(close(std ** 2, np.maximum(var, 0), 1e-5, (1e-7 * k.cond ** .5 + 1e-7) * sd ** 2),
            'std^2 = kriging variance + noise^2', got=std ** 2, want=var, X=X, Y=Y, Xn=Xn, w=w, noise=gp.noise)


CASES = [('picked parameters', posterior, 400, 6000),
         ('default search', lambda h, r: posterior(h, r, True), 12, 200)]
