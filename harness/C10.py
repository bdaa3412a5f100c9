import numpy as np
from ref2 import *

RULE = ('random space and data as in C08, noise in {0, given, learned}, rho bounds varied, parameters picked in the box or found '
        'by the default search; non-trivial: d > 1 or noise > 0')
BOUND = 'd <= 3, n <= 17, condition number < 1e9'


def case(h, rng, default=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    noise = noise_of(rng, Yh)
    kw = dict(rho_bound=[10 ** rng.uniform(-2, -.5), 10 ** rng.uniform(.1, 1)])
    ck = model('ck', rng, ds, noise, default, **kw)
    ck.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    n, d = Xh.shape
    nl = len(Xl)
    m = rng.randint(1, 8)
    Xn = pts(rng, ds, m)
    sd, mu = np.std(Yh), np.mean(Yh)
    rho = float(ck.rho)
    h.check(kw['rho_bound'][0] * (1 - 1e-9) <= rho <= kw['rho_bound'][1] * (1 + 1e-9), 'rho within its bounds', got=rho)
    if noise is not None:
        h.check(abs(ck.noise * sd - noise) <= 1e-9 * sd and abs(ck.lfGP.noise * sd - noise) <= 1e-9 * sd,
                'noise level is the given one', got=ck.noise * sd, want=noise)
    else:
        h.check(1e-5 * .999 <= ck.noise <= 10.001 and 1e-5 * .999 <= ck.lfGP.noise <= 10.001, 'learned noise within its bounds',
                got=ck.noise)
    xh, xl, xn = norm(Xh, ds), norm(Xl, ds), norm(Xn, ds)
    yh, yl = (Yh - mu) / sd, (Yl - mu) / sd
    wl, wd = ck.lfGP.kernel.param, ck.kernel.param
    Kl = kern(xl, xl, wl) + np.eye(nl) * ck.lfGP.noise ** 2
    kl = Krig(Kl, np.ones((nl, 1)), yl)
    ylh = kl.at(kern(xl, xh, wl), np.ones((n, 1)))[0]
    Kd = kern(xh, xh, wd) + np.eye(n) * ck.noise ** 2
    kd = Krig(Kd, np.ones((n, 1)), yh - rho * ylh)
    C = np.block([[kl.s2 * Kl, rho * kl.s2 * kern(xl, xh, wl)],
                  [rho * kl.s2 * kern(xh, xl, wl), rho ** 2 * kl.s2 * kern(xh, xh, wl) + kd.s2 * Kd]])
    C = C + 1e-10 * np.eye(n + nl)
    cond = max(kl.cond, kd.cond, np.linalg.cond(C))
    if cond > 1e9 or not np.isfinite(cond):
        h.skip()
    h.nontrivial((n, d, m, float(ck.noise))) if d > 1 or ck.noise > 0 else None
    h.sample(n=n, d=d, m=m, noise=ck.noise, rho=rho)
    Ci = np.linalg.inv(C)
    y = np.vstack([yl, yh])
    o = np.ones_like(y)
    mm = (o.T @ Ci @ y).item() / (o.T @ Ci @ o).item()
    c = np.vstack([rho * kl.s2 * kern(xl, xn, wl), rho ** 2 * kl.s2 * kern(xh, xn, wl) + kd.s2 * kern(xh, xn, wd)])
    mean = (mm + c.T @ Ci @ (y - mm)) * sd + mu
    var = (rho ** 2 * kl.s2 + kd.s2 - np.einsum('ij,ij->j', c, Ci @ c)).reshape(-1, 1)
    var = (np.maximum(var, 0) + ck.noise ** 2) * sd ** 2
    amp = max(1, cond ** .5 * 1e-2) * max(1, np.abs(y).max())
    tol = 1e-6 * sd * amp
    a = ck.predict(Xn)
    b, s = ck.predict(Xn, return_std=True)
    h.check(close(a, mean, 1e-6, tol), 'mean = co-kriging predictor', got=a, want=mean, Xh=Xh, Yh=Yh, Xl=Xl, Yl=Yl, Xn=Xn, rho=rho,
            noise=ck.noise)
    h.check(close(b, mean, 1e-6, tol), 'mean (with std)', got=b, want=mean)
    vs = sd ** 2 * (1 + rho ** 2 * kl.s2 + kd.s2)
    h.check(s.shape == (m, 1) and np.all(s >= 0), 'std shape and sign')
    h.check(close(s ** 2, var, 1e-5, (1e-6 * cond ** .5 + 1e-6) * vs), 'std^2', got=s ** 2, want=var, noise=ck.noise)
    lm, lv = kl.at(kern(xl, xn, wl), np.ones((m, 1)))
    lm = lm * sd + mu
    lv = (np.maximum(lv, 0) + ck.lfGP.noise ** 2) * sd ** 2
    a = ck.predict_lf(Xn)
    b, s = ck.predict_lf(Xn, return_std=True)
    h.check(close(a, lm, 1e-6, tol) and close(b, lm, 1e-6, tol), 'predict_lf mean', got=a, want=lm)
    h.check(s.shape == (m, 1) and close(s ** 2, lv, 1e-5, (1e-6 * cond ** .5 + 1e-6) * vs), 'predict_lf std', got=s ** 2, want=lv)


CASES = [('picked parameters', case, 500, 6000), ('default search', lambda h, r: case(h, r, True), 10, 150)]
