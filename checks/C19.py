"""C19  constrained Bayesian optimization

Per number of constraints 1, 2, 3; everything else (dimension, sizes, values,
proposals, iterations, order of feasible and infeasible points) is arbitrary."""
from base import *
import bo

M = 'mfpml.optimization.sf_cons_bo'


def build(v, q, optimum, flat, verbose=False):
    class Smp(bo.Sampler):
        pass
    # plan and proposals are arbitrary: row i of the plan is point i, the k-th
    # proposal is point n0 + k of one arbitrary sequence
    Smp.v, Smp.name = v, 'pt'
    R = setup(v, {(M, 'mfpml.design_of_experiment.sf_samplers:LatinHyperCube'): Smp,
                  (M, 'mfpml.models.gaussian_process:GaussianProcessRegression'): bo.Surr})
    K = R.load(M).BayesConsOpt
    d, n0 = v.dim('d'), v.dim('n0')
    p = bo.CProblem(v, d, optimum, q)
    acq = bo.Acq(v, d, flat)
    acq.row = lambda k, j: app('pt', [n0.p + k, j])
    o = K(problem=p, acquisition=acq, num_init=n0, seed=v.int('seed'), verbose=verbose)
    return o, p, acq, d, n0


def isinf(x):
    return isinstance(x, vc.InfT) and x.sign > 0


def best_facts(o, p):
    """what the reported best has to be (by the type it has on this path)"""
    Y, C = p.data.Y, p.cons.Y
    ok = bo.feasible(C)
    r = {k: TRUE for k in BEST}
    r[BEST[0]] = TRUE if isinf(o.best) == (o.best_x is None) else FALSE
    if r[BEST[0]] is FALSE:
        return r
    if isinf(o.best):
        r[BEST[1]] = bo.none_feasible(C)
        return r
    X, bx = asarr(p.data.X), asarr(o.best_x)
    if bx.ndim == 1:
        bx = A.reshape(bx, (1, -1))
    i = uvar('b', 'I', 0, bx._shape[0])
    row = lambda i: newarr(lambda idx, f=bx.nsnap(): f((i, idx[0])), (bx._shape[1],), tag='num')
    r[BEST[2]] = bo.no_lower(o.best, Y, ok)
    r[BEST[3]] = AND(LE(ONE, bx._shape[0]), bo.attained(o.best, row(ZERO), X, Y, ok))
    r[BEST[4]] = FORALL([i], IMPL(bo.within(i, SNum(bx._shape[0])), bo.attained(o.best, row(P(i)), X, Y, ok)))
    return r


BEST = ['there is a best point exactly if best is finite', 'best is infinite only without a feasible point',
        'best is no higher than any feasible response', 'there is a best point; it has the best response',
        'every best point is feasible and has the best response']


def data_facts(o, p):
    r = {}
    for nm, a, c in [('data set = the points evaluated', o.sample, p.data.X), ('objective responses', o.obj_response, p.data.Y),
                     ('constraint responses', o.cons_response, p.cons.Y),
                     ('the constraints are evaluated at the same points', p.cons.X, p.data.X),
                     ('objective surrogate: points', o.obj_surrogate.X, p.data.X)]:
        q = bo.same_rows(a, c)
        r[nm + ' (number)'], r[nm] = (FALSE, FALSE) if q is FALSE else q
    r.update(column('objective surrogate: responses', o.obj_surrogate.Y, p.data.Y, 0))
    for j in range(p.q):
        s = o.cons_surrogates[j]
        q = bo.same_rows(s.X, p.data.X)
        r['constraint surrogate %d: points (number)' % j], r['constraint surrogate %d: points' % j] = (FALSE, FALSE) if q is FALSE else q
        r.update(column('constraint surrogate %d: its own column' % j, s.Y, p.cons.Y, j))
    r['one response per point'] = AND(EQ(asarr(p.data.X)._shape[0], asarr(p.data.Y)._shape[0]),
                                      EQ(asarr(p.data.X)._shape[0], asarr(p.cons.Y)._shape[0]))
    return r


def column(nm, y, Y, j):
    """y, as a list of numbers, is column j of Y"""
    y, Y = asarr(y), asarr(Y)
    i = uvar('b', 'I', 0, Y._shape[0])
    f, g = y.nsnap(), Y.nsnap()
    one = y.ndim == 1 or y._shape[1].const() == 1
    return {nm + ' (number)': AND(EQ(y._shape[0], Y._shape[0])) if one else FALSE,
            nm: FORALL([i], IMPL(bo.within(i, SNum(Y._shape[0])), EQ(f((P(i),) if y.ndim == 1 else (P(i), ZERO)), g((P(i), P(j)))))) if one else FALSE}


def ensure_all(v, tag, r):
    for nm, b in r.items():
        v.ensure(tag + nm, b)


def inv(o, p, n0, d, k, old='pt'):
    r = data_facts(o, p)
    r.update(best_facts(o, p))
    G = p.data
    i, j = uvar('b', 'I', 0, n0.p), uvar('b', 'I', 0, d.p)
    r['the plan comes first'] = AND(LE(n0.p, asarr(G.X)._shape[0]), FORALL([i, j], IMPL(AND(bo.within(i, n0), bo.within(j, d)), EQ(
        asarr(G.X).nsnap()((P(i), P(j))), app(old, [P(i), P(j)])))))
    r['one point per proposal'] = EQ(asarr(G.X)._shape[0], n0.p + k)
    r.update(history(o, k))
    return r


def history(o, k):
    """one entry per step; the last one is the best; never increasing (infinite
    entries come first)"""
    hb, hx = o.history_best, o.history_best_x
    n = vc.vlen(hb)
    r = {'one history entry per step': AND(EQ(to_poly(n), k + ONE), EQ(to_poly(vc.vlen(hx)), k + ONE))}
    if isinstance(n, int):
        r['last history entry'] = r['history: never increasing'] = TRUE
        return r
    r['last history entry'] = as_best(hb.get(to_poly(n) - ONE), o.best)
    i = uvar('b', 'I', 0, n.p - ONE)
    u, w = entry(hb.get(P(i))), entry(hb.get(P(i) + ONE))
    # (finite?, value)
    r['history: never increasing'] = FORALL([i], IMPL(bo.within(i, n - 1), AND(
        IMPL(u[0], AND(w[0], LE(w[1], u[1]))))))
    return r


def entry(x):
    """(is finite, value) of a history entry"""
    if not isinstance(x, Union):
        return (FALSE, ZERO) if isinf(x) else (TRUE, to_poly(x))
    k = [j for j, u in enumerate(x.vars) if u[0] == 'num']
    if not k:
        return FALSE, ZERO
    return EQ(x.tag, P(k[0])), x.val(k[0])(())


def as_best(x, best):
    f, y = entry(x)
    return NOT(f) if isinf(best) else AND(f, EQ(y, to_poly(best)))


def mk_init(q):
    def s(v):
        o, p, acq, d, n0 = build(v, q, None, False)
        ensure_all(v, 'start: ', data_facts(o, p))
        ensure_all(v, 'start: ', best_facts(o, p))
        v.ensure_eq('the plan', p.data.X, v.array('pt', n0, d))
        pl = v.c.ghost['plans']
        v.ensure('one plan of the asked size over the domain', And(len(pl) == 1, eqn(pl[0][1], n0), eqn(pl[0][2], o.seed)))
        v.ensure_eq('domain of the plan', pl[0][0], p.input_domain)
        v.ensure('one history entry', And(eqn(vc.vlen(o.history_best), 1), eqn(vc.vlen(o.history_best_x), 1)))
        hb = o.history_best[0]
        v.ensure('history of the best', And(isinf(hb) and isinf(o.best) or (not isinf(hb) and not isinf(o.best) and eqn(hb, o.best))))
        v.ensure('history of the best point', And(o.history_best_x[0] is o.best_x) if o.best_x is None else TRUE)
        if o.best_x is not None:
            v.ensure_eq('history of the best point', o.history_best_x[0], o.best_x)
    return s


def mk_run(q, optimum, flat, verbose=False):
    def s(v):
        opt = None if optimum is None else v.real('opt') if optimum else SNum(ZERO)
        if optimum:
            v.assume(Not(eqn(opt, 0)))
        o, p, acq, d, n0 = build(v, q, opt, flat, verbose)

        def before(kw):
            cs = kw.get('cons_surrogate')
            v.ensure('the surrogates are handed over', And(kw.get('obj_surrogate') is o.obj_surrogate, len(cs) == q, *[
                cs[j] is o.cons_surrogates[j] for j in range(q)]))
            ensure_all(v, 'before every proposal: ', data_facts(o, p))
            ensure_all(v, 'before every proposal: ', best_facts(o, p))
        acq.before = before
        v.ver.templates = [lambda st, k, phase, loop: inv(o, p, n0, d, k)]
        res = o.run_optimizer(max_iter=v.int('max_iter'), stopping_error=v.real('stop'))
        k = acq.calls
        ensure_all(v, 'end: ', inv(o, p, n0, d, to_poly(k)))
        v.ensure_forall('then the proposals', [k, d], lambda i, j: eqn(E(p.data.X, n0 + i, j), SNum(app('pt', [n0.p + i.p, j.p]))))
        hb, hx = o.history_best, o.history_best_x
        v.ensure('one history entry per step', And(eqn(vc.vlen(hb), k + 1), eqn(vc.vlen(hx), k + 1)))
        same_best = isinf(res[0]) and isinf(o.best) or (not isinf(res[0]) and not isinf(o.best) and eqn(res[0], o.best))
        v.ensure('the result is the best', And(same_best, res[1] is o.best_x))
    return s


def U(*a, **k):
    return a[0], a[1], dict(union=True, **k)


SCENARIOS = [('start, %d constraints' % q, mk_init(q)) for q in (1, 2, 3)] + [
    U('run, 1 constraint, unknown optimum, row', mk_run(1, None, 1)),
    U('run, 1 constraint, optimum zero, matrix, verbose', mk_run(1, 0, 0, True)),
    U('run, 1 constraint, optimum not zero, row', mk_run(1, 1, 1)),
    U('run, 2 constraints, optimum zero, matrix', mk_run(2, 0, 0)),
    U('run, 2 constraints, optimum not zero, row', mk_run(2, 1, 1)),
    U('run, 3 constraints, unknown optimum, matrix', mk_run(3, None, 0))]
ASSUMPTIONS = ['the sampler, the problem, the acquisition function and the surrogate meet their contracts (checks/bo.py; C01, C03, C27, '
               'C16, C07)', 'a problem evaluates row by row', 'at most 3 constraints (one proof per number of constraints)']
