"""random multi-fidelity data and models shared by the harnesses"""
import numpy as np
from mfpml.models.co_kriging import CoKriging
from mfpml.models.gaussian_process import GaussianProcessRegression as GP
from mfpml.models.hierarchical_kriging import HierarchicalKriging
from mfpml.models.scale_kriging import ScaledKriging
from ref import Krig, Opt, close, fun, kern, norm, pts, space

KINDS = {'hk': HierarchicalKriging, 'sk': ScaledKriging, 'ck': CoKriging}


def mfdata(rng, dmax=3, noisy=False, nmin=5):
    d = rng.randint(1, dmax + 1)
    ds = space(rng, d)
    n, nl = rng.randint(nmin, nmin + 7), rng.randint(nmin + 2, nmin + 13)
    Xh, Xl = pts(rng, ds, n), pts(rng, ds, nl)
    f, g = fun(rng, d), fun(rng, d)
    a, b = rng.uniform(.3, 2), rng.uniform(0, .5)
    Yh, Yl = f(Xh), a * f(Xl) + b * g(Xl)
    if noisy:
        Yh = Yh + .05 * np.std(Yh) * rng.randn(n, 1)
        Yl = Yl + .05 * np.std(Yl) * rng.randn(nl, 1)
    return ds, Xh, Yh, Xl, Yl, f


def noise_of(rng, Y, kinds=(0, 1, 2)):
    k = rng.choice(kinds)
    return [0.0, float(np.std(Y) * 10 ** rng.uniform(-3, -.3)), None][k]


def model(kind, rng, ds, noise, default=False, **kw):
    opt = None if default else Opt(rng, .3, 1.0)
    if kind == 'gp':
        return GP(design_space=ds, optimizer=opt, noise_prior=noise, optimizer_restart=0)
    return KINDS[kind](design_space=ds, optimizer=opt, noise_prior=noise, optimizer_restart=0, **kw)


def gp_ref(gp, X, Y, ds, Xn):
    """kriging posterior (mean, var) for the parameters gp ended with"""
    sd, mu = np.std(Y), np.mean(Y)
    w = gp.kernel.param
    Xs, Ns = norm(X, ds), norm(Xn, ds)
    k = Krig(kern(Xs, Xs, w) + np.eye(len(X)) * (gp.noise / sd) ** 2, gp.regr(Xs), (Y.reshape(-1, 1) - mu) / sd)
    mean, var = k.at(kern(Xs, Ns, w), gp.regr(Ns))
    return mean * sd + mu, var * sd ** 2 + gp.noise ** 2, k.cond
