import importlib
import numpy as np
import bo

RULE = 'random smooth and coarse (tied) pairs of objectives in 1..3 dimensions, the three surrogates, scripted proposals and fidelities (repeats, corners; rows and matrices; biased to either fidelity), 1..3 runs in sequence, recorded (quick) or real surrogates; non-trivial: proposals of both fidelities'
BOUND = '<= 8 + 12 initial points, <= 3 runs of <= 8 iterations'
NAMES = ['HierarchicalKriging', 'ScaledKriging', 'CoKriging']


def classes():
    return [getattr(importlib.import_module('mfpml.models.' + m), c) for m, c in [
        ('hierarchical_kriging', 'HierarchicalKriging'), ('scale_kriging', 'ScaledKriging'), ('co_kriging', 'CoKriging')]]


def state(h, tag, o, p, n, plans, acq):
    data = [p.data(0), p.data(1)]
    t = o.surrogate.trained_on[-1]
    for f in (0, 1):
        X, Y = data[f]
        h.check(bo.eq(o.sample[f], X) and bo.eq(o.response[f], Y), '%s: the data of a fidelity are its evaluations' % tag, fid=f, got=o.sample[f], want=X)
        mine = [x for x, g in zip(acq.props, acq.fids) if g == f]
        h.check(bo.eq(X, np.vstack([plans[f]] + [m.reshape(1, -1) for m in mine])), '%s: the plan, then the proposals of that fidelity' % tag, fid=f, X=X)
        h.check(bo.eq(t[0][f], X) and np.array_equal(np.ravel(t[1][f]), Y[:, 0]), '%s: surrogate trained on the complete data' % tag, fid=f)
    X, Y = data[0]
    h.check(float(o.best) == Y.min(), '%s: best is the lowest high-fidelity response' % tag, best=o.best, Y=Y)
    at = lambda x, b, k: any(np.array_equal(np.asarray(x, dtype=float).reshape(-1), r) and y == b for r, y in zip(X[:k], Y[:k, 0]))
    h.check(at(o.best_x, Y.min(), None), '%s: best_x has the best response' % tag, best_x=o.best_x)
    hb, hx, fo = list(o.history_best), list(o.history_best_x), list(o.fidelity_query_order)
    k = len(acq.props)
    h.check(len(hb) == len(hx) == 1 + k and len(fo) == k, '%s: one history entry per step' % tag, hb=hb, fo=fo)
    h.check([int(f) for f in fo] == acq.fids, '%s: fidelity order' % tag, fo=fo, want=acq.fids)
    c = n[0]
    for i, b in enumerate(hb[:1 + k]):
        c = n[0] + acq.fids[:i].count(0)
        h.check(float(b) == Y[:c].min(), '%s: history holds the best so far' % tag, i=i, hb=hb, Y=Y)
        h.check(i < len(hx) and at(hx[i], b, c), '%s: history point has the listed value' % tag, i=i)
    h.check([l for l in p.log[2:]] == [(f, 1) for f in acq.fids], '%s: one evaluation of the proposed fidelity per proposal' % tag, log=p.log)


def run(h, rng, fake=True):
    M = importlib.import_module('mfpml.optimization.mf_uncons_bo')
    K = M.mfUnConsBayesOpt
    S = importlib.import_module('mfpml.design_of_experiment.mf_samplers').MFLatinHyperCube
    d = rng.randint(1, 4)
    n = [rng.randint(1 if fake else 3, 9), rng.randint(1 if fake else 4, 13)]
    n[1] = max(n)
    opt = [None, 0.0, 2.5, -1.5][rng.randint(4)]
    p = bo.MFProblem(rng, d, opt, coarse=fake and rng.rand() < .4)
    seed = int(rng.randint(1, 10000))
    plans = S(design_space=p.input_domain, num_fidelity=2).get_samples(num_samples=list(n), seed=seed)
    name = NAMES[rng.randint(3)]
    cell = {}
    bias = rng.choice([.1, .5, .9])

    def before(a, kw):
        state(h, 'before a proposal', cell['o'], p, n, plans, acq)
        s = list(a) + list(kw.values())
        h.check(any(x is cell['o'].surrogate for x in s), 'the acquisition gets the surrogate')
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5, before, fid=lambda r: r.rand() < bias)
    with bo.recorded(classes(), fake):
        o = cell['o'] = K(problem=p, acquisition=acq, num_init=list(n), surrogate_name=name, seed=seed, verbose=bool(rng.rand() < .3))
        h.check(type(o.surrogate).__name__ == name, 'the surrogate asked for', got=type(o.surrogate).__name__)
        state(h, 'start', o, p, n, plans, acq)
        for r in range(rng.randint(1, 4) if fake else 1):
            o.run_optimizer(max_iter=int(rng.randint(0, 9 if fake else 3)), cost_ratio=float(rng.choice([1., 5.])),
                            stopping_error=float(rng.choice([-1, 0, .3, 1.])))
            state(h, 'after a run', o, p, n, plans, acq)
    h.sample(name=name, proposals=np.array(acq.props), fids=acq.fids)
    if len(set(acq.fids)) == 2:
        h.nontrivial((name, d, n, tuple(acq.fids), seed))


def real(h, rng):
    run(h, rng, False)


CASES = [('recorded', run, 600, 6000), ('real surrogate', real, 6, 40)]
