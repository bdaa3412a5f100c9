"""C18  single-fidelity Bayesian optimization"""
from base import *
import bo

M = 'mfpml.optimization.sf_uncons_bo'


def build(v, optimum, flat, verbose=False):
    class Smp(bo.Sampler):
        pass
    Smp.v = v
    R = setup(v, {(M, 'mfpml.design_of_experiment.sf_samplers:LatinHyperCube'): Smp,
                  (M, 'mfpml.models.gaussian_process:GaussianProcessRegression'): bo.Surr})
    K = R.load(M).BayesUnConsOpt
    d, n0 = v.dim('d'), v.dim('n0')
    p = bo.Problem(v, d, optimum)
    acq = bo.Acq(v, d, flat)
    o = K(problem=p, acquisition=acq, num_init=n0, seed=v.int('seed'), verbose=verbose)
    return o, p, acq, d, n0


def is_best(v, tag, o, X, Y):
    """best = min Y, attained at a row of X equal to best_x"""
    v.ensure('%s: no response is below the best' % tag, bo.no_lower(o.best, Y))
    v.ensure('%s: best_x is an evaluated point with the best response' % tag, bo.attained(o.best, o.best_x, X, Y))


def s_init(v):
    o, p, acq, d, n0 = build(v, None, False)
    G = p.data
    plan = v.array('plan', n0, d)
    v.ensure_eq('the data set starts as the Latin hypercube plan', o.sample, plan)
    pl = v.c.ghost['plans']
    v.ensure('one plan, of num_init points, with the seed', And(len(pl) == 1, eqn(pl[0][1], n0), eqn(pl[0][2], o.seed)))
    v.ensure_eq('plan over the domain of the problem', pl[0][0], p.input_domain)
    same(v, 'all points evaluated, in order', o.sample, G.X)
    same(v, 'with the values of the problem', o.response, G.Y)
    same(v, 'surrogate trained on the points', o.surrogate.X, G.X)
    same(v, 'surrogate trained on the responses', o.surrogate.Y, G.Y)
    is_best(v, 'start', o, G.X, G.Y)
    v.ensure('one history entry', And(len(o.history_best) == 1, len(o.history_best_x) == 1))
    v.ensure('history of the best', eqn(o.history_best[0], o.best))
    v.ensure_eq('history of the best point', o.history_best_x[0], o.best_x)


def mk_run(optimum, flat):
    def s(v):
        opt = v.real('opt') if optimum else None
        o, p, acq, d, n0 = build(v, opt, flat)
        G = p.data

        def before(kw):
            v.ensure('the surrogate is handed to the acquisition function', And(kw.get('surrogate') is o.surrogate))
            same(v, 'before every proposal: surrogate trained on all points', o.surrogate.X, G.X)
            same(v, 'before every proposal: surrogate trained on all responses', o.surrogate.Y, G.Y)
            is_best(v, 'before every proposal', o, G.X, G.Y)
        acq.before = before
        r = o.run_optimizer(max_iter=v.int('max_iter'), stopping_error=v.real('stop'))
        k = acq.calls
        same(v, 'data set = all evaluated points', o.sample, G.X)
        same(v, 'with the values of the problem', o.response, G.Y)
        v.ensure('initial plan plus one point per proposal', eqn(G.X.shape[0], n0 + k))
        plan = v.array('plan', n0, d)
        v.ensure_forall('the plan comes first', [n0, d], lambda i, j: eqn(E(G.X, i, j), E(plan, i, j)))
        v.ensure_forall('then the proposals', [k, d], lambda i, j: eqn(E(G.X, n0 + i, j), SNum(app('prop', [i.p, j.p]))))
        same(v, 'surrogate trained on all points', o.surrogate.X, G.X)
        same(v, 'surrogate trained on all responses', o.surrogate.Y, G.Y)
        is_best(v, 'end', o, G.X, G.Y)
        v.ensure('the result is the best', eqn(r[0], o.best))
        v.ensure_eq('the result is the best point', r[1], o.best_x)
        hb, hx = o.history_best, o.history_best_x
        v.ensure('one history entry per step', And(eqn(vc.vlen(hb), k + 1), eqn(vc.vlen(hx), k + 1)))
        v.ensure_forall('history: never increasing', [k], lambda i: hb[i + 1] <= hb[i])
        v.ensure_forall('history: the minimum so far', [k + 1, n0 + k], lambda i, q: Imp(q < n0 + i, hb[i] <= E(G.Y, q, 0)))
        v.ensure('history: the last entry is the best', eqn(hb[k], o.best))
    return s


def mk_again(optimum):
    """a further run, from any state that earlier runs can leave behind (the
    properties 'run' establishes are all that is assumed of it)"""
    def s(v):
        opt = v.real('opt') if optimum else None
        o, p, acq, d, n0 = build(v, opt, False)
        G = p.data
        N0, H = v.dim('N0'), v.dim('H')
        X = v.array('oldX', N0, d)
        Y = bo.rowval('obj', X)
        o.sample, o.response = X, Y
        G.X, G.Y = A.copy(X), A.copy(Y)
        o.surrogate.train(A.copy(X), A.copy(Y))
        o.best, o.best_x = np_().min(Y), X[np_().argmin(Y), :]
        hb0 = lambda i: SNum(app('oldhb', [to_poly(i)]))
        hx0 = lambda i, j: SNum(app('oldhx', [to_poly(i), to_poly(j)]))
        i = uvar('b', 'I', 0, H.p)
        v.assume(FORALL([i], IMPL(AND(LE(ZERO, P(i)), LT(P(i) + ONE, H.p)), LE(hb0(SNum(P(i) + ONE)).p, hb0(SNum(P(i))).p))))
        v.assume(eqn(hb0(H - 1), o.best))
        o.history_best = SList(H.p, lambda i: hb0(SNum(i)))
        o.history_best_x = SList(H.p, lambda i: newarr(lambda idx: hx0(SNum(i), SNum(idx[0])).p, (d.p,), tag='num'))
        c0 = acq.calls

        def before(kw):
            same(v, 'again, before every proposal: surrogate trained on all points', o.surrogate.X, G.X)
            same(v, 'again, before every proposal: surrogate trained on all responses', o.surrogate.Y, G.Y)
            is_best(v, 'again, before every proposal', o, G.X, G.Y)
        acq.before = before
        o.run_optimizer(max_iter=v.int('max_iter'), stopping_error=v.real('stop'))
        k = acq.calls - c0
        same(v, 'again: data set = all evaluated points', o.sample, G.X)
        same(v, 'again: with the values of the problem', o.response, G.Y)
        v.ensure('again: one point per proposal', eqn(G.X.shape[0], N0 + k))
        v.ensure_forall('again: the old points are kept', [N0, d], lambda i, j: eqn(E(G.X, i, j), E(X, i, j)))
        same(v, 'again: surrogate trained on all points', o.surrogate.X, G.X)
        same(v, 'again: surrogate trained on all responses', o.surrogate.Y, G.Y)
        is_best(v, 'again', o, G.X, G.Y)
        hb, hx = o.history_best, o.history_best_x
        v.ensure('again: one history entry per step', And(eqn(vc.vlen(hb), k + H), eqn(vc.vlen(hx), k + H)))
        v.ensure_forall('again: the old history is kept', [H], lambda i: eqn(hb[i], hb0(i)))
        v.ensure_forall('again: history never increasing', [k + H - 1], lambda i: hb[i + 1] <= hb[i])
        v.ensure('again: the last history entry is the best', eqn(hb[k + H - 1], o.best))
    return s


def s_verbose(v):
    """printing changes nothing"""
    o, p, acq, d, n0 = build(v, v.real('opt'), False, verbose=True)
    o.run_optimizer(max_iter=v.int('max_iter'), stopping_error=v.real('stop'))
    k, G = acq.calls, p.data
    same(v, 'verbose: data set = all evaluated points', o.sample, G.X)
    same(v, 'verbose: surrogate trained on all responses', o.surrogate.Y, G.Y)
    v.ensure('verbose: one point per proposal', eqn(G.X.shape[0], n0 + k))
    is_best(v, 'verbose', o, G.X, G.Y)
    v.ensure('verbose: one history entry per step', And(eqn(vc.vlen(o.history_best), k + 1), eqn(vc.vlen(o.history_best_x), k + 1)))


SCENARIOS = [('start', s_init)] + [('run, %s, %s' % ('known optimum' if a else 'unknown optimum', 'row' if f else 'matrix'), mk_run(a, f))
                                   for a in (0, 1) for f in (0, 1)] + [
    ('run again, unknown optimum', mk_again(0)), ('run again, known optimum', mk_again(1)), ('verbose', s_verbose)]
ASSUMPTIONS = ['the sampler, the problem, the acquisition function and the surrogate meet their contracts (checks/bo.py; C01, C03, C24, '
               'C15, C07)', 'a problem evaluates row by row']
