import numpy as np
from ref2 import *

RULE = ('random space, data and noise as in C08-C10; a batch is predicted as a whole, permuted, row by row, after other predictions, '
        'with and without std; non-trivial: batch of more than one point')
BOUND = 'd <= 3, n <= 17, batch <= 40, rarely <= 2099, condition number < 1e8'


def case(h, rng, kind, default=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    d = len(ds)
    m = model(kind, rng, ds, noise_of(rng, Yh), default)
    m.train(*([Xh.copy(), Yh.copy()] if kind == 'gp' else [[Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()]]))
    parts = {'gp': lambda: [m], 'hk': lambda: [m, m.lfGP], 'sk': lambda: [m.lfGP, m.disc_model], 'ck': lambda: [m, m.lfGP]}[kind]()
    # entry (i, i) of the rectangular kernel carries 1e-10; the solved weights (norm <= |residual| / smallest eigenvalue) amplify it
    lam, c = 1., 1.
    for q in parts:
        low = q is getattr(m, 'lfGP', None)
        X = norm(Xl if low else Xh, ds)
        sd = 1. if kind == 'ck' else np.std(q.sample_y if kind in ('gp', 'sk') or low else Yh)
        ev = np.linalg.eigvalsh(kern(X, X, q.kernel.param) + np.eye(len(X)) * (q.noise / sd) ** 2)
        lam, c = min(lam, ev[0]), max(c, ev[-1] / max(ev[0], 1e-300))
    if kind == 'ck':
        ev = np.linalg.eigvalsh(m.C + 1e-10 * np.eye(len(m.C)))
        lam, c = min(lam, ev[0] / max(1, ev[-1])), max(c, ev[-1] / max(ev[0], 1e-300))
    if not np.isfinite(c) or c > 1e8 or lam <= 0:
        h.skip()
    u = rng.rand()
    n = rng.randint(1, 41) if u < .78 else rng.randint(200, 2100) if u < .82 else len(Xh)
    Xn = pts(rng, ds, min(n, 12)) if n <= 12 else ds[:, 0] + rng.rand(n, d) * (ds[:, 1] - ds[:, 0])
    if rng.rand() < .15:
        Xn = Xh.copy()              # exactly the training points
    n = len(Xn)
    if rng.rand() < .2:
        Xn[-1] = Xh[0]
    if rng.rand() < .2:
        Xn = Xn + .3 * (ds[:, 1] - ds[:, 0]) * rng.randn(n, d)
    scale = max(np.std(Yh), np.std(Yl)) * (1 + abs(float(np.max(getattr(m, 'rho', 1.0)))))
    tm = scale * (1e-8 + 1e-14 * c + 1e-8 / lam)
    tv = scale ** 2 * (1e-8 + 1e-14 * c / lam + 1e-8 / lam / max(lam, 1e-2))
    if tm > 1e-2 * scale or tv > 1e-2 * scale ** 2:
        h.skip()
    for nm, p in [('predict', m.predict)] + ([('predict_lf', m.predict_lf)] if kind != 'gp' else []):
        keep = Xn.copy()
        a = p(Xn)
        b, s = p(Xn, return_std=True)
        h.check(np.shape(a) == (n, 1) and np.shape(s) == (n, 1) and np.shape(b) == (n, 1), '%s %s: one row per point' % (kind, nm),
                got=np.shape(a), std=np.shape(s), n=n)
        if np.shape(a) != (n, 1) or np.shape(s) != (n, 1):
            return
        h.check(np.all(np.isfinite(a)) and np.all(np.isfinite(s)) and np.all(s >= 0), '%s %s: std >= 0, finite' % (kind, nm), got=s)
        h.check(np.all(np.abs(a - b) <= tm * 1e-2), '%s %s: the mean does not depend on return_std' % (kind, nm), a=a, b=b)
        h.check(np.array_equal(Xn, keep), '%s %s: the points are left alone' % (kind, nm))
        X2 = ds[:, 0] + rng.rand(rng.randint(1, 9), d) * (ds[:, 1] - ds[:, 0])
        p(X2, return_std=True)
        m.predict(X2)
        b2, s2 = p(Xn, return_std=True)
        h.check(np.array_equal(b, b2) and np.array_equal(s, s2), '%s %s: repeated prediction' % (kind, nm), a=b, b=b2)
        pm = rng.permutation(n)
        c2, t2 = p(Xn[pm], return_std=True)
        h.check(np.all(np.abs(c2 - b[pm]) <= tm), '%s %s: permuted batch, mean' % (kind, nm), got=c2, want=b[pm], cond=c)
        h.check(np.all(np.abs(t2 ** 2 - s[pm] ** 2) <= tv), '%s %s: permuted batch, std' % (kind, nm), got=t2, want=s[pm], cond=c)
        i = rng.randint(n)
        for x in (Xn[i:i + 1], Xn[i]):
            c2, t2 = p(x, return_std=True)
            h.check(np.shape(c2) == (1, 1) and np.shape(t2) == (1, 1), '%s %s: one point, one row' % (kind, nm), got=np.shape(c2))
            h.check(np.all(np.abs(c2 - b[i]) <= tm), '%s %s: one row, mean' % (kind, nm), got=c2, want=b[i], cond=c)
            h.check(np.all(np.abs(t2 ** 2 - s[i] ** 2) <= tv), '%s %s: one row, std' % (kind, nm), got=t2, want=s[i], cond=c)
        dup = np.vstack([Xn[i:i + 1]] * 3)
        c2, t2 = p(dup, return_std=True)
        h.check(np.all(np.abs(c2 - b[i]) <= tm) and np.all(np.abs(t2 ** 2 - s[i] ** 2) <= tv), '%s %s: repeated rows' % (kind, nm),
                got=c2, want=b[i], std=t2, wstd=s[i])
    h.nontrivial((kind, d, n, float(c))) if n > 1 else None
    h.sample(kind=kind, d=d, n=n, cond=float(c))


CASES = [(k, (lambda k: lambda h, r: case(h, r, k))(k), 150, 2500) for k in ('gp', 'hk', 'sk', 'ck')]
CASES += [(k + ' searched', (lambda k: lambda h, r: case(h, r, k, True))(k), 5, 60) for k in ('gp', 'hk', 'sk', 'ck')]
