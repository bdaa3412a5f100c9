import importlib
import numpy as np
import bo

RULE = 'random smooth and coarse (tied) objectives with 1..4 random constraints in 1..3 dimensions, from all feasible to never feasible; scripted proposals (repeats, corners; rows and matrices), 1..3 runs in sequence, recorded (quick) or real Kriging; non-trivial: at least one iteration'
BOUND = '<= 8 initial points, <= 3 runs of <= 8 iterations, <= 4 constraints'


def best_of(X, Y, C):
    ok = np.all(C <= 0, axis=1)
    return (Y[ok].min(), ok) if ok.any() else (np.inf, ok)


def is_best_point(bx, b, X, Y, ok):
    """bx: one point or a list of points, each feasible with response b"""
    if bx is None:
        return False
    B = np.asarray(bx, dtype=float)
    B = B.reshape(1, -1) if B.ndim == 1 else B
    return len(B) >= 1 and all(any(np.array_equal(r, x) and y == b and o for x, y, o in zip(X, Y[:, 0], ok)) for r in B)


def state(h, tag, o, p, n0, plan, acq):
    X, Y = p.data()
    C = np.vstack(p.C)
    h.check(len(C) == len(X), '%s: constraints evaluated at every point' % tag, n=len(C), m=len(X))
    h.check(bo.eq(o.sample, X), '%s: data set = plan followed by the proposals' % tag, got=o.sample, want=X)
    h.check(bo.eq(o.obj_response, Y), '%s: objective responses are the values of the problem' % tag, got=o.obj_response, want=Y)
    h.check(bo.eq(o.cons_response, C), '%s: constraint responses are the values of the problem' % tag, got=o.cons_response, want=C)
    h.check(bo.eq(np.vstack(p.XC), X), '%s: constraints evaluated at the same points' % tag)
    h.check(len(X) == n0 + len(acq.props) and bo.eq(X[:n0], plan), '%s: the plan comes first' % tag)
    if acq.props:
        h.check(bo.eq(X[n0:], np.array(acq.props)), '%s: one point per proposal' % tag)
    b, ok = best_of(X, Y, C)
    h.check(float(o.best) == b, '%s: best is the lowest feasible response (inf if there is none)' % tag, best=o.best, Y=Y, C=C)
    if ok.any():
        h.check(is_best_point(o.best_x, b, X, Y, ok), '%s: best_x is feasible and has the best response' % tag, best_x=o.best_x, X=X, Y=Y, C=C)
    else:
        h.check(o.best_x is None, '%s: no best point while nothing is feasible' % tag, best_x=o.best_x)
    t = o.obj_surrogate.trained_on[-1]
    h.check(bo.eq(t[0], X) and np.array_equal(np.ravel(t[1]), Y[:, 0]), '%s: objective surrogate trained on the complete data set' % tag, t=t, X=X, Y=Y)
    h.check(len(o.cons_surrogates) == p.num_cons, '%s: one surrogate per constraint' % tag)
    for j, s in enumerate(o.cons_surrogates):
        t = s.trained_on[-1]
        h.check(bo.eq(t[0], X) and np.array_equal(np.ravel(t[1]), C[:, j]), '%s: surrogate of constraint %d trained on its own column' % (tag, j), t=t, X=X, C=C)
    hb, hx = list(o.history_best), list(o.history_best_x)
    h.check(len(hb) == len(hx) == 1 + len(acq.props), '%s: one history entry per step' % tag, hb=hb)
    for i, e in enumerate(hb[:1 + len(acq.props)]):
        n = n0 + i
        w, k = best_of(X[:n], Y[:n], C[:n])
        h.check(float(e) == w, '%s: history holds the best so far' % tag, i=i, hb=hb, Y=Y, C=C)
        if i < len(hx):
            h.check(hx[i] is None if not k.any() else is_best_point(hx[i], w, X[:n], Y[:n], k), '%s: history point has the listed value' % tag, i=i, x=hx[i])


def run(h, rng, fake=True):
    M = importlib.import_module('mfpml.optimization.sf_cons_bo')
    LHS = importlib.import_module('mfpml.design_of_experiment').LatinHyperCube
    d, n0 = rng.randint(1, 4), rng.randint(1 if fake else 3, 9)
    opt = [None, 0.0, 2.5, -1.5][rng.randint(4)]
    q = int(rng.randint(1, 5))
    p = bo.Problem(rng, d, opt, q, coarse=fake and rng.rand() < .5, infeas=rng.choice([-1.2, -.6, 0., .5, .9, 1.2]))
    seed = int(rng.randint(1, 10000))
    plan = LHS(design_space=p.input_domain).get_samples(num_samples=n0, seed=seed)
    cell = {}

    def before(a, kw):
        o = cell['o']
        state(h, 'before a proposal', o, p, n0, plan, acq)
        s = list(a) + list(kw.values())
        h.check(any(x is o.obj_surrogate for x in s), 'the acquisition gets the surrogate of the objective')
        h.check(any(isinstance(x, (list, tuple)) and len(x) == q and all(u is w for u, w in zip(x, o.cons_surrogates)) for x in s),
                'the acquisition gets the surrogates of the constraints')
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5, before)
    with bo.recorded([bo.G.GaussianProcessRegression], fake):
        o = cell['o'] = M.BayesConsOpt(problem=p, acquisition=acq, num_init=n0, seed=seed, verbose=bool(rng.rand() < .3))
        state(h, 'start', o, p, n0, plan, acq)
        for r in range(rng.randint(1, 4) if fake else 1):
            out = o.run_optimizer(max_iter=int(rng.randint(0, 9 if fake else 3)), stopping_error=float(rng.choice([-1, 0, .3, 1.])))
            state(h, 'after a run', o, p, n0, plan, acq)
            h.check(out is not None and out[0] == o.best and (out[1] is o.best_x or np.array_equal(out[1], o.best_x)), 'the run returns the best')
    h.sample(plan=plan, proposals=np.array(acq.props), responses=p.data()[1], constraints=np.vstack(p.C))
    if acq.props:
        h.nontrivial((d, n0, q, len(acq.props), seed))


def real(h, rng):
    run(h, rng, False)


CASES = [('recorded', run, 500, 5000), ('real kriging', real, 5, 40)]
