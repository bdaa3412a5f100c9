import numpy as np
from ref2 import *

RULE = ('two data sets (different sizes, scales) in one random space, noise in {0, given, learned}, a training order of 2 or 3 '
        'trainings interleaved with predictions; compared with a fresh model, both with the same optimizer picks / random state; '
        'non-trivial: noise learned or sizes differ')
BOUND = 'd <= 3, n <= 17, up to 3 trainings'


class Pick(Opt):
    def __init__(self, u):
        Opt.__init__(self, None, u=u)

    def plot_optimization_history(self, *a, **k):
        pass


def case(h, rng, kind, default=False, restart=False):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    d = len(ds)
    sets = [(Xh, Yh, Xl, Yl)]
    for _ in range(rng.randint(1, 3)):
        n, nl = rng.randint(4, 12), rng.randint(5, 15)
        g = fun(rng, d)
        A, B = pts(rng, ds, n), pts(rng, ds, nl)
        s = 10. ** rng.uniform(-2, 2)
        if rng.rand() < .25:
            # points of the data set before, other responses (of one or both fidelities)
            A, B = [(sets[-1][0], sets[-1][2]), (A, sets[-1][2]), (sets[-1][0], B)][rng.randint(3)]
        sets.append((A, s * g(A), B, s * (g(B) + .2 * f(B))))
        if rng.rand() < .1:
            # one response of one point changes
            a, b, c, e = [x.copy() for x in sets[-1]]
            (b if rng.rand() < .5 else e)[rng.randint(4)] += s
            sets.append((a, b, c, e))
    noise = noise_of(rng, Yh)
    u = rng.uniform(.2, 1, 12)
    kw = {}
    if kind == 'sk' and rng.rand() < .3:
        kw = dict(rho_optimize=True, rho_method='error')

    def mk():
        o = None if default else Pick(u)
        r = 1 if restart else 0
        if kind == 'gp':
            return GP(design_space=ds, optimizer=o, noise_prior=noise, optimizer_restart=r)
        return KINDS[kind](design_space=ds, optimizer=o, noise_prior=noise, optimizer_restart=r, **kw)

    def train(m, D):
        Xh, Yh, Xl, Yl = D
        np.random.seed(77)
        m.train(*([Xh.copy(), Yh.copy()] if kind == 'gp' else [[Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()]]))
    a, b = mk(), mk()
    Xn = pts(rng, ds, 6)
    if not (kind in ('hk', 'ck') and rng.rand() < .3):
        for D in sets[:-1]:
            train(a, D)
            if rng.rand() < .7:
                a.predict(Xn, return_std=True)
    else:
        # the same data trained twice
        train(a, sets[-1])
    train(a, sets[-1])
    train(b, sets[-1])
    h.nontrivial((kind, noise, [len(s[0]) for s in sets])) if noise is None or len(set(len(s[0]) for s in sets)) > 1 else None
    h.sample(kind=kind, noise=noise, sizes=[len(s[0]) for s in sets])
    for nm in ['predict'] + (['predict_lf'] if kind != 'gp' else []):
        x, s = getattr(a, nm)(Xn, return_std=True)
        y, t = getattr(b, nm)(Xn, return_std=True)
        h.check(np.array_equal(x, y), '%s %s: mean as trained afresh' % (kind, nm), got=x, want=y, noise=noise)
        h.check(np.array_equal(s, t, equal_nan=True), '%s %s: std as trained afresh' % (kind, nm), got=s, want=t, noise=noise)
    if kind != 'gp':
        h.check(a._num_xh == len(sets[-1][0]) and a._num_xl == len(sets[-1][2]), '%s: sample counts of the last training' % kind)
    h.check(np.array_equal(np.asarray(a.noise, float), np.asarray(b.noise, float)), '%s: noise as trained afresh' % kind,
            got=a.noise, want=b.noise)


def lf_order(h, rng):
    """a high-fidelity-only update is a training on the new high-fidelity data"""
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng)
    h.nontrivial(len(Xh))
    kind = ['hk', 'sk', 'ck'][rng.randint(3)]
    u = rng.uniform(.2, 1, 12)
    noise = noise_of(rng, Yh, (0, 1))
    mk = lambda: KINDS[kind](design_space=ds, optimizer=Pick(u), noise_prior=noise, optimizer_restart=0)
    a, b = mk(), mk()
    np.random.seed(5)
    a.train([Xh[:-1].copy(), Xl.copy()], [Yh[:-1].copy(), Yl.copy()])
    np.random.seed(5)
    a.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    np.random.seed(5)
    b.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    Xn = pts(rng, ds, 4)
    x, s = a.predict(Xn, return_std=True)
    y, t = b.predict(Xn, return_std=True)
    h.check(np.array_equal(x, y) and np.array_equal(s, t, equal_nan=True), '%s: growing data set' % kind, got=x, want=y)


CASES = [(k, (lambda k: lambda h, r: case(h, r, k))(k), 150, 2500) for k in ('gp', 'hk', 'sk', 'ck')]
CASES += [(k + ' searched', (lambda k: lambda h, r: case(h, r, k, True, r.rand() < .5))(k), 6, 80) for k in ('gp', 'hk', 'sk', 'ck')]
CASES += [('growing', lf_order, 60, 600)]
