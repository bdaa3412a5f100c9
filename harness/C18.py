import importlib
import numpy as np
import bo

RULE = 'random smooth and coarse (tied) objectives in 1..3 dimensions, scripted proposals (repeats, corners; rows and matrices), 1..3 runs in sequence, recorded (quick) or real Kriging; non-trivial: at least one iteration'
BOUND = '<= 8 initial points, <= 3 runs of <= 8 iterations'


def state(h, tag, o, p, n0, plan, acq):
    X, Y = p.data()
    h.check(bo.eq(o.sample, X), '%s: data set = plan followed by the proposals' % tag, got=o.sample, want=X)
    h.check(bo.eq(o.response, Y), '%s: responses are the values of the problem' % tag, got=o.response, want=Y)
    h.check(len(X) == n0 + len(acq.props) and bo.eq(X[:n0], plan), '%s: the plan comes first' % tag)
    if acq.props:
        h.check(bo.eq(X[n0:], np.array(acq.props)), '%s: one point per proposal' % tag)
    h.check(float(o.best) == Y.min(), '%s: best is the lowest response' % tag, best=o.best, Y=Y)
    bx = np.asarray(o.best_x, dtype=float).reshape(-1)
    h.check(any(np.array_equal(bx, r) and y == Y.min() for r, y in zip(X, Y[:, 0])), '%s: best_x has the best response' % tag, best_x=bx, X=X, Y=Y)
    t = o.surrogate.trained_on[-1]
    h.check(bo.eq(t[0], X) and np.array_equal(np.ravel(t[1]), Y[:, 0]), '%s: surrogate trained on the complete data set' % tag, t=t, X=X, Y=Y)
    hb, hx = list(o.history_best), list(o.history_best_x)
    h.check(len(hb) == len(hx) == 1 + len(acq.props), '%s: one history entry per step' % tag, hb=hb)
    for i, b in enumerate(hb[:1 + len(acq.props)]):
        h.check(float(b) == Y[:n0 + i].min(), '%s: history holds the best so far' % tag, i=i, hb=hb, Y=Y)
        x = np.asarray(hx[i], dtype=float).reshape(-1) if i < len(hx) else None
        h.check(x is not None and any(np.array_equal(x, r) and y == b for r, y in zip(X[:n0 + i], Y[:n0 + i, 0])),
                '%s: history point has the listed value' % tag, i=i)


def run(h, rng, fake=True):
    M = importlib.import_module('mfpml.optimization.sf_uncons_bo')
    K = M.BayesUnConsOpt
    LHS = importlib.import_module('mfpml.design_of_experiment').LatinHyperCube
    d, n0 = rng.randint(1, 4), rng.randint(1 if fake else 3, 9)
    opt = [None, 0.0, 2.5, -1.5][rng.randint(4)]
    p = bo.Problem(rng, d, opt, coarse=fake and rng.rand() < .4)
    seed = int(rng.randint(1, 10000))
    plan = LHS(design_space=p.input_domain).get_samples(num_samples=n0, seed=seed)
    cell = {}

    def before(a, kw):
        state(h, 'before a proposal', cell['o'], p, n0, plan, acq)
        s = list(a) + list(kw.values())
        h.check(any(x is cell['o'].surrogate for x in s), 'the acquisition gets the surrogate')
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5, before)
    with bo.recorded([bo.G.GaussianProcessRegression], fake):
        o = cell['o'] = K(problem=p, acquisition=acq, num_init=n0, seed=seed, verbose=bool(rng.rand() < .3))
        state(h, 'start', o, p, n0, plan, acq)
        for r in range(rng.randint(1, 4) if fake else 1):
            out = o.run_optimizer(max_iter=int(rng.randint(0, 9 if fake else 3)), stopping_error=float(rng.choice([-1, 0, .3, 1.])))
            state(h, 'after a run', o, p, n0, plan, acq)
            h.check(out is not None and out[0] == o.best and np.array_equal(out[1], o.best_x), 'the run returns the best')
    h.sample(plan=plan, proposals=np.array(acq.props), responses=p.data()[1])
    if acq.props:
        h.nontrivial((d, n0, len(acq.props), seed))


def real(h, rng):
    run(h, rng, False)


CASES = [('recorded', run, 600, 6000), ('real kriging', real, 8, 60)]
