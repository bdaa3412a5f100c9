import numpy as np
from ref2 import *

RULE = ('random space and data, d in 1..3, 5..11 high- and 7..17 low-fidelity samples, noise in {0, given, learned}, parameters '
        'picked in the box or found by the default search; non-trivial: d > 1 or noise > 0')
BOUND = 'd <= 3, n <= 17, condition number < 1e8'


def case(h, rng, default=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    noise = noise_of(rng, Yh)
    hk = model('hk', rng, ds, noise, default)
    hk.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    n, d = Xh.shape
    m = rng.randint(1, 8)
    Xn = pts(rng, ds, m)
    sd, mu = np.std(Yh), np.mean(Yh)
    if noise is not None:
        h.check(hk.noise == noise, 'noise level is the given one', got=hk.noise, want=noise)
    else:
        h.check(1e-5 * sd * .999 <= hk.noise <= 10 * sd * 1.001, 'learned noise within its bounds', got=hk.noise, sd=sd)
    lm, lv, lc = gp_ref(hk.lfGP, Xl, Yl, ds, Xn)
    lh, _, _ = gp_ref(hk.lfGP, Xl, Yl, ds, Xh)
    w = hk.kernel.param
    k = Krig(kern(norm(Xh, ds), norm(Xh, ds), w) + np.eye(n) * (hk.noise / sd) ** 2, (lh - mu) / sd, (Yh - mu) / sd)
    if max(k.cond, lc) > 1e8:
        h.skip()
    h.nontrivial((n, d, m, float(hk.noise))) if d > 1 or hk.noise > 0 else None
    h.sample(n=n, d=d, m=m, noise=hk.noise)
    tl = 1e-7 * np.std(Yl) * max(1, lc ** .5 * 1e-2)
    h.check(close(hk.predict_lf(Xn), lm, 1e-6, tl), 'predict_lf = kriging of the low-fidelity data', Xl=Xl, Yl=Yl, Xn=Xn)
    a, s = hk.predict_lf(Xn, return_std=True)
    h.check(close(a, lm, 1e-6, tl) and close(s ** 2, np.maximum(lv, 0), 1e-5, (1e-7 * lc ** .5 + 1e-7) * np.var(Yl)),
            'predict_lf with std', got=s, want=lv)
    mean, var = k.at(kern(norm(Xh, ds), norm(Xn, ds), w), (lm - mu) / sd)
    mean = mean * sd + mu
    var = np.maximum(var, 0) * sd ** 2 + hk.noise ** 2
    tol = 1e-6 * sd * max(1, max(k.cond, lc) ** .5 * 1e-2) * (1 + abs(k.beta.item()))
    a = hk.predict(Xn)
    b, s = hk.predict(Xn, return_std=True)
    h.check(close(a, mean, 1e-6, tol), 'mean = hierarchical kriging predictor', got=a, want=mean, Xh=Xh, Yh=Yh, Xl=Xl, Yl=Yl, Xn=Xn)
    h.check(close(b, mean, 1e-6, tol), 'mean (with std)', got=b, want=mean)
    h.check(s.shape == (m, 1) and np.all(s >= 0), 'std shape and sign', got=s)
    h.check(close(s ** 2, var, 1e-5, (1e-6 * max(k.cond, lc) ** .5 + 1e-6) * sd ** 2), 'std^2', got=s ** 2, want=var,
            Xh=Xh, Yh=Yh, Xl=Xl, Yl=Yl, Xn=Xn, noise=hk.noise)


CASES = [('picked parameters', case, 500, 6000), ('default search', lambda h, r: case(h, r, True), 12, 200)]
