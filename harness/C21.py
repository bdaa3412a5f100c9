import importlib
import numpy as np
import bo
import C20

RULE = 'random smooth and coarse objectives in 1..3 dimensions, all three optimizers, optimum unknown, 0, positive, negative, reachable or not, stopping errors from -1 to 30, budgets 0..12, scripted proposals, 1..3 runs in sequence, surrogates recorded only; non-trivial: stopped by the error after at least one iteration, or by the budget after at least one'
BOUND = '<= 6 + 8 initial points, <= 3 runs of <= 12 iterations'


def limits(h, rng, o, p, acq, best, evals, go):
    """best(): lowest admissible response so far (inf: none); evals(): number of points evaluated"""
    for r in range(rng.randint(1, 4)):
        N = int(rng.choice([0, 1, 2, 5, 8, 12]))
        stop = float(rng.choice([-1, 0, .02, .1, .3, 1., 3., 30.]))
        k0, e0 = len(acq.props), evals()

        def err():
            b = best()
            return np.inf if p.optimum is None or np.isinf(b) else bo.error(b, p.optimum)

        def before(a, kw):
            k = len(acq.props) - k0
            h.check(k < N, 'proposal only while iterations remain', k=k, N=N)
            h.check(err() >= stop - 1e-9 * (1 + abs(stop)), 'proposal only while the error has not fallen below the stopping error', error=err(), stop=stop, k=k, best=best(), optimum=p.optimum)
            h.check(evals() - e0 == k, 'one evaluation per iteration so far', k=k, evals=evals() - e0)
        acq.before = before
        go(N, stop)
        k = len(acq.props) - k0
        h.check(k <= N, 'at most the given number of iterations', k=k, N=N)
        h.check(k == N or err() <= stop + 1e-9 * (1 + abs(stop)), 'stopped only by the budget or the error', k=k, N=N, error=err(), stop=stop, best=best(), optimum=p.optimum)
        h.check(evals() - e0 == k, 'one evaluation per iteration', k=k, evals=evals() - e0)
        if k:
            h.nontrivial((k == N, p.optimum is None, round(stop, 2), N, len(p.input_domain), evals()))


def setup(rng, make):
    d = rng.randint(1, 4)
    coarse = rng.rand() < .4
    p = make(d, coarse)
    kind = rng.randint(5)
    if kind == 0:
        p.optimum = None
    elif kind == 1:
        p.optimum = rng.choice([0, 0.0])
    else:
        X = p.input_domain[:, 0] + rng.rand(30, d) * (p.input_domain[:, 1] - p.input_domain[:, 0])
        y = p.val(X)
        p.optimum = float(y.min() if kind < 4 else y.min() - rng.rand())
        if kind == 3:
            p.optimum = float(np.round(p.optimum))
    return d, p


def sf(h, rng):
    d, p = setup(rng, lambda d, c: bo.Problem(rng, d, coarse=c))
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5)
    with bo.recorded([bo.G.GaussianProcessRegression]):
        o = importlib.import_module('mfpml.optimization.sf_uncons_bo').BayesUnConsOpt(
            problem=p, acquisition=acq, num_init=int(rng.randint(1, 7)), seed=int(rng.randint(1, 9999)), verbose=bool(rng.rand() < .3))
        limits(h, rng, o, p, acq, lambda: p.data()[1].min(), lambda: len(p.data()[1]),
               lambda N, s: o.run_optimizer(max_iter=N, stopping_error=s))


def cons(h, rng):
    q = int(rng.randint(1, 4))
    d, p = setup(rng, lambda d, c: bo.Problem(rng, d, None, q, coarse=c, infeas=rng.choice([-1.2, -.3, .3, .8, 1.2])))
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5)

    def best():
        Y, ok = p.data()[1][:, 0], np.all(np.vstack(p.C) <= 0, axis=1)
        return Y[ok].min() if ok.any() else np.inf
    with bo.recorded([bo.G.GaussianProcessRegression]):
        o = importlib.import_module('mfpml.optimization.sf_cons_bo').BayesConsOpt(
            problem=p, acquisition=acq, num_init=int(rng.randint(1, 7)), seed=int(rng.randint(1, 9999)), verbose=bool(rng.rand() < .3))
        limits(h, rng, o, p, acq, best, lambda: len(np.vstack(p.C)), lambda N, s: o.run_optimizer(max_iter=N, stopping_error=s))


def mf(h, rng):
    d, p = setup(rng, lambda d, c: bo.MFProblem(rng, d, coarse=c))
    bias = rng.choice([.1, .5, .9])
    acq = bo.Acq(rng, p.input_domain, rng.rand() < .5, fid=lambda r: r.rand() < bias)
    n = sorted(int(x) for x in rng.randint(1, 9, 2))
    with bo.recorded(C20.classes()):
        o = importlib.import_module('mfpml.optimization.mf_uncons_bo').mfUnConsBayesOpt(
            problem=p, acquisition=acq, num_init=n, surrogate_name=C20.NAMES[rng.randint(3)], seed=int(rng.randint(1, 9999)),
            verbose=bool(rng.rand() < .3))
        limits(h, rng, o, p, acq, lambda: p.data(0)[1].min(), lambda: sum(k for f, k in p.log),
               lambda N, s: o.run_optimizer(max_iter=N, cost_ratio=float(rng.uniform(1, 5)), stopping_error=s))


CASES = [('single fidelity', sf, 500, 5000), ('constrained', cons, 500, 5000), ('multi-fidelity', mf, 500, 5000)]
