import numpy as np
from ref2 import *

RULE = ('random space and data as in C08, rho fixed / error / bumpiness, default or user models, noise in {0, given, learned}; '
        'non-trivial: rho != 1')
BOUND = 'd <= 3, n <= 17'


class UserModel:
    """a user supplied surrogate: a fixed function, records what it was trained on"""

    def __init__(self, rng, d, noise=0.0):
        self.f, self.s = fun(rng, d), fun(rng, d)
        self.noise, self.calls = noise, []

    def train(self, X, Y):
        self.calls.append((np.array(X), np.array(Y)))

    def predict(self, X, return_std=False):
        return (self.f(X), np.abs(self.s(X))) if return_std else self.f(X)


def case(h, rng, default=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    d = len(ds)
    noise = noise_of(rng, Yh)
    kind = rng.choice(['fixed', 'error', 'bumpiness', 'opt'] if not default else ['fixed', 'error', 'bumpiness'])
    lo = 10 ** rng.uniform(-2, -.3)
    hi = 10 ** rng.uniform(0, 1)
    user = rng.rand() < .4 and kind != 'bumpiness'
    kw = dict(rho_bound=[lo, hi])
    if kind != 'fixed':
        kw.update(rho_optimize=True, rho_method='error' if kind == 'opt' else kind)
    if user:
        kw.update(lfGP=UserModel(rng, d), disc_model=UserModel(rng, d, noise or 0.1))
    sk = model('sk', rng, ds, noise, default, **kw)
    if kind == 'opt':
        o = Opt(rng)
        o.plot_optimization_history = lambda *a, **k: None
        sk.rho_optimizer = o
    sk.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    m = rng.randint(1, 8)
    Xn = pts(rng, ds, m)
    rho = float(np.asarray(sk.rho).ravel()[0])
    h.check(np.size(sk.rho) == 1, 'one scale factor')
    if kind == 'fixed':
        h.check(rho == 1, 'scale factor 1', got=rho)
    else:
        h.check(lo * (1 - 1e-9) <= rho <= hi * (1 + 1e-9), 'scale factor within its bounds', got=rho, lo=lo, hi=hi)
    lm, lh = sk.lfGP.predict(Xn), sk.lfGP.predict(Xh)
    if kind == 'error':
        best = np.clip((lh * Yh).sum() / (lh ** 2).sum(), lo, hi)
        e = lambda r: ((r * lh - Yh) ** 2).sum()
        h.check(e(rho) <= e(best) * (1 + 1e-3) + 1e-4 * (Yh ** 2).sum(), 'scale factor minimises the squared error', got=rho,
                want=best, lh=lh, Yh=Yh)
        v = sk._eval_error(np.array([rho, 2 * rho])) if hasattr(sk, '_eval_error') else None
        if v is not None:
            h.check(close(v, [e(rho), e(2 * rho)]), 'squared error of several factors', got=v)
    h.nontrivial((kind, d, len(Xh), user)) if rho != 1 else None
    h.sample(kind=kind, d=d, rho=rho, user=user)
    disc = Yh - rho * lh
    if user:
        h.check(len(sk.lfGP.calls) == 1 and np.array_equal(sk.lfGP.calls[0][0], Xl) and
                np.array_equal(sk.lfGP.calls[0][1].ravel(), Yl.ravel()), 'low-fidelity model trained on the low-fidelity data')
        X, Y = sk.disc_model.calls[-1]
        h.check(np.array_equal(X, Xh) and close(Y.reshape(-1, 1), disc, 1e-9, 1e-9 * np.std(Yh)),
                'discrepancy trained on Yh - rho lf(Xh)', got=Y, want=disc)
        a, sa = sk.lfGP.predict(Xn, True)
        c, sc = sk.disc_model.predict(Xn, True)
        t1 = t2 = 1e-9 * np.std(Yh)
        va, vc_ = sa ** 2, sc ** 2
    else:
        if np.std(disc) < 1e-9 * np.std(Yh):
            h.skip()
        a, va, ca = gp_ref(sk.lfGP, Xl, Yl, ds, Xn)
        c, vc_, cc = gp_ref(sk.disc_model, Xh, disc, ds, Xn)
        if max(ca, cc) > 1e8:
            h.skip()
        q = max(1, max(ca, cc) ** .5 * 1e-2)
        t1 = 1e-6 * q * (rho * np.std(Yl) + np.std(disc))
        t2 = (1e-6 * max(ca, cc) ** .5 + 1e-6) * (rho ** 2 * np.var(Yl) + np.var(disc))
        h.check(close(sk.predict_lf(Xn), a, 1e-6, t1 + 1e-6 * q * np.std(Yl)), 'predict_lf = kriging of the low-fidelity data')
    want = rho * a + c
    wv = rho ** 2 * np.maximum(va, 0) + np.maximum(vc_, 0)
    p = sk.predict(Xn)
    b, s = sk.predict(Xn, return_std=True)
    h.check(close(p, want, 1e-6, t1), 'mean = rho lf + disc', got=p, want=want, rho=rho, Xh=Xh, Yh=Yh, Xl=Xl, Yl=Yl, Xn=Xn)
    h.check(close(b, want, 1e-6, t1), 'mean (with std)', got=b, want=want)
    h.check(s.shape == (m, 1) and np.all(s >= 0) and close(s ** 2, wv, 1e-5, t2), 'std^2 = rho^2 lf_std^2 + disc_std^2',
            got=s ** 2, want=wv, rho=rho)


CASES = [('picked parameters', case, 500, 6000), ('default search', lambda h, r: case(h, r, True), 10, 150)]
