import numpy as np
from ref2 import *

RULE = ('random space, well separated samples, noise 0, parameters picked in the upper part of the box or searched; models gp, hk, '
        'sk, ck; predictions at the (high-fidelity) samples as a batch, one by one and permuted; non-trivial: every case')
BOUND = 'd <= 3, n <= 17, covariance condition number < 1e8'


def case(h, rng, kind, default=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, nmin=5)
    kw = {}
    if kind == 'sk' and not default:
        kw = [{}, dict(rho_optimize=True, rho_method='error'), dict(rho_optimize=True, rho_method='bumpiness')][rng.choice(
            3, p=[.47, .47, .06])]
    m = model(kind, rng, ds, 0.0, default, **kw)
    if kind == 'gp':
        m.train(Xh.copy(), Yh.copy())
    else:
        m.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    if kind == 'sk':
        w = m.disc_model.kernel.param
    elif kind == 'ck':
        w = m.kernel.param
    else:
        w = m.kernel.param
    xs = norm(Xh, ds)
    cond = 1.
    if w is not None:
        cond = np.linalg.cond(kern(xs, xs, w))
    if kind == 'ck':
        cond = max(cond, np.linalg.cond(m.C + 1e-10 * np.eye(len(m.C))))
    if kind in ('hk', 'sk'):
        # low-fidelity predictions at the samples carry the 1e-10 jitter
        xl = norm(Xl, ds)
        cond = max(cond, np.linalg.cond(kern(xl, xl, m.lfGP.kernel.param)))
    if not np.isfinite(cond) or cond > 1e8:
        h.skip()
    scale = max(np.std(Yh), np.abs(Yh - Yh.mean()).max(), np.std(Yl))
    amp = 1.
    if kind == 'ck':
        # the 1e-10 nugget moves the mean by 1e-10 w, w = C^-1 (y - mu)
        Ci = np.linalg.inv(m.C + 1e-10 * np.eye(len(m.C)))
        amp += 1e-4 * np.abs(Ci).sum(1).max() * 1e-2
    tol = 1e-6 * scale * (1 + cond * 1e-3) * amp
    if tol > 1e-2 * np.std(Yh):
        h.skip()
    h.nontrivial((kind, Xh.shape, float(cond)))
    h.sample(kind=kind, shape=Xh.shape, cond=float(cond))
    p = m.predict(Xh)
    h.check(np.shape(p) == (len(Xh), 1) and np.all(np.abs(p - Yh) <= tol), '%s: mean at the samples is the response' % kind,
            got=p, want=Yh, X=Xh, tol=tol)
    q, s = m.predict(Xh, return_std=True)
    h.check(np.all(np.abs(q - Yh) <= tol), '%s: mean at the samples is the response (with std)' % kind, got=q, want=Yh, X=Xh)
    if kind != 'ck' and kind != 'sk':
        h.check(np.all(s <= 1e-3 * scale * np.sqrt(1 + cond * 1e-3)), '%s: std vanishes at the samples' % kind, got=s, scale=scale)
    perm = rng.permutation(len(Xh))
    p = m.predict(Xh[perm])
    h.check(np.all(np.abs(p - Yh[perm]) <= tol), '%s: mean at the samples in another order' % kind, got=p, want=Yh[perm])
    i = rng.randint(len(Xh))
    p = m.predict(Xh[i:i + 1])
    h.check(np.all(np.abs(p - Yh[i:i + 1]) <= tol), '%s: mean at one sample' % kind, got=p, want=Yh[i])
    if kind in ('hk', 'sk', 'ck'):
        xl = norm(Xl, ds)
        lw = m.lfGP.kernel.param
        c = np.linalg.cond(kern(xl, xl, lw))
        t = 1e-6 * scale * (1 + c * 1e-3)
        if np.isfinite(c) and c < 1e8 and t < 1e-2 * np.std(Yl):
            p = m.predict_lf(Xl)
            h.check(np.all(np.abs(p - Yl) <= t), '%s: low-fidelity mean at the low-fidelity samples' % kind, got=p, want=Yl)


CASES = [('gp picked', lambda h, r: case(h, r, 'gp'), 250, 3000), ('hk picked', lambda h, r: case(h, r, 'hk'), 250, 3000),
         ('sk picked', lambda h, r: case(h, r, 'sk'), 250, 3000), ('ck picked', lambda h, r: case(h, r, 'ck'), 250, 3000),
         ('gp searched', lambda h, r: case(h, r, 'gp', True), 8, 100), ('hk searched', lambda h, r: case(h, r, 'hk', True), 8, 100),
         ('sk searched', lambda h, r: case(h, r, 'sk', True), 8, 100), ('ck searched', lambda h, r: case(h, r, 'ck', True), 8, 100)]
