import numpy as np
from mfpml.models.hierarchical_kriging import HierarchicalKriging
from mfpml.optimization import mf_acqusitions as S
from C15 import Phi, phi
from ref import close, fun, kern, norm, space
from ref2 import mfdata, model, noise_of

RULE = ('stub multi-fidelity surrogates with random predictions of both fidelities (deviations 0 included) and trained hk/sk/ck models, '
        'batches of 1-30 points, random cost ratio and best value; proposals compared with a grid; non-trivial: batch > 1')
BOUND = 'd <= 4; batch <= 30, rarely <= 1199; up to 17 samples per fidelity'
KINDS = ('AugmentedEI', 'VFEI', 'VFLCB', 'ExtendedPI')
EPS = np.finfo(float).eps


class Stub(HierarchicalKriging):
    def __init__(self, rng, d):
        self.bound = space(rng, d)
        self.again(rng)

    def again(self, rng):
        d = len(self.bound)
        self.fs = [fun(rng, d) for _ in range(4)]
        # the fidelities agree to a random degree
        w = rng.rand()
        f0, f1 = self.fs[0], self.fs[1]
        self.fs[1] = lambda X: w * f0(X) + (1 - w) * f1(X)
        self.beta = np.array([[rng.uniform(-2, 2)]])
        self.floor = 0.
        self.zero = False
        n, nl = rng.randint(2, 9), rng.randint(2, 12)
        b = self.bound
        self.sample_xh, self.sample_xl = [b[:, 0] + rng.rand(k, d) * (b[:, 1] - b[:, 0]) for k in (n, nl)]
        self.w = 10 ** rng.uniform(-1, 2, (2, d))

    def predict(self, X, return_std=False):
        X = np.atleast_2d(X)
        m = self.fs[0](X)
        s = np.abs(self.fs[2](X)) * .2 + self.floor
        if self.zero:
            s = s * (np.floor(np.abs(X[:, :1]) * 7) % 2)
        return (m, s) if return_std else m

    def predict_lf(self, X, return_std=False):
        X = np.atleast_2d(X)
        m, s = self.fs[1](X), np.abs(self.fs[3](X)) * .2 + self.floor
        return (m, s) if return_std else m

    def _eval_corr(self, X, Xprime, fidelity=0):
        return kern(norm(np.atleast_2d(X), self.bound), norm(Xprime, self.bound), self.w[fidelity])


def corr_of(s, X, f):
    if isinstance(s, Stub):
        return s._eval_corr(X, [s.sample_xh, s.sample_xl][f], f)
    k = (s.kernel if f == 0 else s.lfGP.kernel).param
    b = np.asarray(s.bound)
    return kern(norm(X, b), norm([s.sample_xh, s.sample_xl][f], b), k)


def value(kind, s, X, f, cr, fm, kap):
    X = np.atleast_2d(X)
    y, sd = s.predict(X, return_std=True)
    yl, sl = s.predict_lf(X, return_std=True)
    with np.errstate(all='ignore'):
        if kind == 'VFLCB':
            return (kap[0] * y - kap[1] * (sd if f == 0 else sl * cr)).ravel()
        if kind == 'VFEI':
            q = sd if f == 0 else np.abs(s.beta) * sl
            t = fm - y
            z = t / (q + 1e-8)
            return np.where(q < EPS, 0, -(t * Phi(z) + q * phi(z))).ravel()
        corr = np.ones_like(y) if f == 0 else sl / (np.abs(y - yl) + sd)
        ratio = 1. if f == 0 else cr
        if kind == 'AugmentedEI':
            A = np.vstack([s.sample_xh, s.sample_xl])
            a, b = s.predict(A, return_std=True)
            u = (a + b).ravel()
            fms = a.ravel()[np.argmin(u)]
            fm = s.predict(A[np.argmin(u)][None])[0, 0]
            z = (fm - y) / np.where(sd < EPS, 1, sd)
            r = -((fm - y) * Phi(z) + sd * phi(z)) * corr * ratio
        else:
            z = (fm - y) / np.where(sd < EPS, 1, sd)
            r = -Phi(z) * corr * ratio * np.prod(1 - corr_of(s, X, f), axis=1, keepdims=True)
        return np.where(sd < EPS, 0, r).ravel()


def call(kind, acq, s, X, f, cr, fm):
    a = {'AugmentedEI': (s, cr, f), 'VFEI': (fm, s, f), 'VFLCB': (s, cr, f), 'ExtendedPI': (s, fm, cr, f)}[kind]
    return acq.eval(X, *a)


def mk(rng, kind):
    kap = [rng.uniform(.1, 3), rng.uniform(0, 3)]
    return (S.VFLCB(kappa=list(kap)) if kind == 'VFLCB' else getattr(S, kind)()), kap


def values(h, rng, s, kind, again):
    b = np.asarray(s.bound)
    d = len(b)
    m = rng.randint(1, 31) if rng.rand() < .98 else rng.randint(200, 1200)
    X = b[:, 0] + rng.rand(m, d) * (b[:, 1] - b[:, 0])
    cr, f = rng.uniform(.2, 8), rng.randint(2)
    acq, kap = mk(rng, kind)
    if rng.rand() < .4:
        # the object was used before: with another model, and with this one
        o = Stub(rng, rng.randint(1, 5))
        o.zero = False
        o.floor = .1
        call(kind, acq, o, o.sample_xh, f, cr + 1, 0.)
        call(kind, acq, s, X, 1 - f, cr, .3)
        call(kind, acq, s, X, f, 2 * cr, .3)
        again()
    y = s.predict(X)
    fm = float(np.min(y) + rng.uniform(-1, 2) * (np.std(y) + .1))
    w = value(kind, s, X, f, cr, fm, kap)
    tol = 1e-7 * (1 + np.abs(y).max() + abs(fm)) * (1 + np.nanmax(np.abs(w))) * (1 + cr)
    got = call(kind, acq, s, X, f, cr, fm)
    ok = np.shape(got) == (m,)
    fin = np.isfinite(w)
    h.check(ok and np.all(np.abs(got - w)[fin] <= tol), '%s fidelity %d: value at every point' % (kind, f), got=got, want=w, cr=cr, fmin=fm,
            X=X)
    i = rng.randint(m)
    if fin[i]:
        for x in (X[i], X[i:i + 1]):
            g = call(kind, acq, s, x, f, cr, fm)
            w1 = value(kind, s, X[i:i + 1], f, cr, fm, kap)
            h.check(np.shape(g) == (1,) and np.abs(g[0] - w1[0]) <= tol, '%s fidelity %d: value at one point' % (kind, f), got=g, want=w1)
    bad = [2, -1, 3, 5][rng.randint(4)]
    try:
        call(kind, acq, s, X, bad, cr, fm)
        h.check(False, '%s: fidelity %d is refused' % (kind, bad))
    except ValueError:
        h.check(True, 'refused')
    if kind == 'ExtendedPI':
        o, _ = mk(rng, 'VFEI')
        try:
            o.eval(X, fm, object(), 0)
            h.check(False, 'VFEI: other models are refused')
        except ValueError:
            h.check(True, 'refused')
    h.nontrivial((kind, f, d, m)) if m > 1 else None
    h.sample(kind=kind, f=f, d=d, m=m)


def case(h, rng):
    s = Stub(rng, rng.randint(1, 5))
    s.zero = rng.rand() < .2
    values(h, rng, s, KINDS[rng.randint(4)], lambda: s.again(rng))


def trained(h, rng):
    kind = KINDS[rng.randint(4)]
    mk_ = ['hk', 'sk', 'ck'][rng.randint(3)] if kind not in ('VFEI', 'ExtendedPI') else 'hk'
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng)
    m = model(mk_, rng, ds, noise_of(rng, Yh))
    m.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    h.check(np.array_equal(m.bound, ds) and np.array_equal(m._get_sample_hf, Xh) and np.array_equal(m._get_sample_lf, Xl),
            '%s: design space and samples' % mk_)
    if mk_ != 'ck':
        P = ds[:, 0] + rng.rand(4, len(ds)) * (ds[:, 1] - ds[:, 0])
        for q, k in ((0, m.kernel), (1, m.lfGP.kernel)):
            h.check(close(m._eval_corr(P, Xl, fidelity=q), kern(norm(P, ds), norm(Xl, ds), k.param)), 'correlation, fidelity %d' % q)
    values(h, rng, m, kind, lambda: m.train([Xh.copy(), Xl.copy()], [Yh + np.std(Yh) * rng.rand(*Yh.shape), Yl.copy()]))


def proposal(h, rng):
    d = rng.randint(1, 3)
    s = Stub(rng, d)
    b = s.bound
    g = b[:, 0] + rng.rand(3000, d) * (b[:, 1] - b[:, 0])
    # smooth responses with one valley: the search must not get stuck
    w, c, c2, a = b[:, 1] - b[:, 0], b[:, 0] + rng.rand(2, d)[0] * (b[:, 1] - b[:, 0]), b[:, 0] + rng.rand(d) * (b[:, 1] - b[:, 0]), rng.uniform(.3, 3)
    s.fs = [lambda X: a * (((X - c) / w) ** 2).sum(axis=1, keepdims=True), lambda X: a * (((X - c2) / w) ** 2).sum(axis=1, keepdims=True),
            lambda X: .5 + ((X - c2) / w)[:, :1] * .2, lambda X: .5 + ((X - c) / w)[:, -1:] * .2]
    s.floor = .3 * np.std(s.predict(g)) + 1e-3
    kind = KINDS[rng.randint(4)]
    cr = rng.uniform(.2, 4)
    fm = float(np.quantile(s.predict(g), .05))
    acq, kap = mk(rng, kind)
    x, f = acq.query(mf_surrogate=s, cost_ratio=cr, fmin=fm)
    h.check(np.shape(x) == (1, d) and f in (0, 1) and np.all(x >= b[:, 0]) and np.all(x <= b[:, 1]), 'proposal: one row in the box', got=x)
    if kind == 'ExtendedPI':
        fm = float(s.predict(g).min())
    v = [value(kind, s, g, q, cr, fm, kap) for q in (0, 1)]
    sp = max(np.ptp(v[0]), np.ptp(v[1])) + 1e-9
    tol = .05 if kind != 'ExtendedPI' else .15
    far = abs(v[0].min() - v[1].min()) > 2 * tol * sp
    low = int(v[1].min() < v[0].min())
    # the search is a heuristic: one of several proposals has to be good
    for _ in range(8):
        got = value(kind, s, x, f, cr, fm, kap)[0]
        if got <= v[f].min() + tol * sp and (not far or f == low):
            break
        x, f = acq.query(mf_surrogate=s, cost_ratio=cr, fmin=fm)
    h.check(got <= v[f].min() + tol * sp, '%s: proposal minimises the function' % kind, got=got, best=v[f].min(), f=f)
    if far:
        h.check(f == low, '%s: fidelity with the lower minimum' % kind, got=f, v0=v[0].min(), v1=v[1].min())
    h.nontrivial(('proposal', kind, d, f))


def tie(h, rng):
    """both fidelities equal everywhere: the high fidelity is chosen"""
    d = 1
    s = Stub(rng, d)
    kind = KINDS[rng.randint(1, 3)]
    s.fs = [lambda X: 0 * X[:, :1] + 1., lambda X: 0 * X[:, :1] + 1., lambda X: 0 * X[:, :1] + 2., lambda X: 0 * X[:, :1] + 2.]
    s.beta = np.array([[1.]])
    acq, kap = mk(rng, kind)
    x, f = acq.query(mf_surrogate=s, cost_ratio=1., fmin=.5)
    h.check(f == 0, '%s: high fidelity on ties' % kind, got=f)
    h.nontrivial(('tie', kind))


CASES = [('values', case, 900, 12000), ('trained models', trained, 120, 1500), ('proposal', proposal, 24, 250), ('tie', tie, 3, 12)]
