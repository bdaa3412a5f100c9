"""C21  budget and stopping error of the Bayesian optimizers

At every proposal iterations remain and the error has not fallen below the
stopping error; at the end the budget is used up or the error is at most the
stopping error (equality of the two is left to the optimizer); exactly one
evaluation per iteration."""
from base import *
import bo
import C18
import C19
import C20


def isinf(x):
    return isinstance(x, vc.InfT) and x.sign > 0


def error(best, opt):
    """None: no finite error"""
    if opt is None or isinf(best):
        return None
    e = np_().abs(best - opt)
    return e if opt is ZERO_OPT else e / np_().abs(opt)


ZERO_OPT = SNum(ZERO)


def optimum(v, kind):
    if kind is None:
        return None
    if kind == 0:
        return ZERO_OPT
    opt = v.real('opt')
    v.assume(opt > 0 if kind > 0 else opt < 0)
    return opt


def limits(v, tag, o, acq, opt, evals, rows, run, inv=None):
    """evals(): number of calls of the problem, rows(): points evaluated"""
    N, stop = v.int('max_iter'), v.real('stop')
    c0, e0, r0 = acq.calls, evals(), rows()

    def before(kw):
        k = acq.calls - c0
        e = error(o.best, opt)
        v.ensure(tag + 'before every proposal: iterations remain', k < N)
        v.ensure(tag + 'before every proposal: the error has not fallen below the stopping error', TRUE if e is None else stop <= e)
        v.ensure(tag + 'before every proposal: one point per iteration so far', eqn(rows() - r0, k))
    acq.before = before
    inv = inv or (lambda k: {})

    def templates(st, k, phase, loop):
        """guessed invariants: those that do not hold are dropped"""
        r = dict(inv(k), budget=OR(EQ0(k), LE(k, N.p)))
        e = error(o.best, opt)
        for path, x in st.items():
            if isinf(x) or isinstance(x, (SNum, int, float)):
                r['%s is the error' % (path,)] = (TRUE if e is None else FALSE) if isinf(x) else \
                    FALSE if e is None else EQ(to_poly(x), to_poly(e))
        return r
    v.ver.templates = [templates]
    run(N, stop)
    k = acq.calls - c0
    e = error(o.best, opt)
    v.ensure(tag + 'end: at most the given number of iterations', Or(k <= N, eqn(k, 0)))
    v.ensure(tag + 'end: stopped by the budget or by the error', N <= k if e is None else Or(N <= k, e <= stop))
    v.ensure(tag + 'end: one point per iteration', eqn(rows() - r0, k))
    v.ensure(tag + 'end: one call of the problem per iteration', eqn(evals() - e0, k))


def mk_sf(kind, flat):
    def s(v):
        opt = optimum(v, kind)
        o, p, acq, d, n0 = C18.build(v, opt, flat)
        limits(v, '', o, acq, opt, lambda: p.data.calls, lambda: p.data.X.shape[0],
               lambda N, stop: o.run_optimizer(max_iter=N, stopping_error=stop))
    return s


def mk_cons(kind, flat, q):
    def s(v):
        opt = optimum(v, kind)
        o, p, acq, d, n0 = C19.build(v, q, opt, flat)
        c0 = p.cons.calls

        def run(N, stop):
            o.run_optimizer(max_iter=N, stopping_error=stop)
        limits(v, '', o, acq, opt, lambda: p.data.calls, lambda: p.data.X.shape[0], run,
               lambda k: dict(C19.data_facts(o, p), coupled=C19.best_facts(o, p)[C19.BEST[0]]))
        v.ensure('end: one evaluation of the constraints per iteration', eqn(p.cons.calls - c0, acq.calls))
    return s


def mk_mf(kind, flat, name):
    def s(v):
        opt = optimum(v, kind)
        o, p, acq, d, nh, nl = C20.build(v, name, opt, flat)
        rows = lambda: p.data.X.shape[0] + p.lo.X.shape[0]
        n = rows()
        c = p.data.calls + p.lo.calls
        inv = lambda k: {'one point per iteration': EQ(to_poly(rows()), to_poly(n) + k),
                         'one call per iteration': EQ(to_poly(p.data.calls + p.lo.calls), to_poly(c) + k)}
        limits(v, '', o, acq, opt, lambda: p.data.calls + p.lo.calls, rows,
               lambda N, stop: o.run_optimizer(max_iter=N, cost_ratio=v.real('cost'), stopping_error=stop), inv)
        v.ensure('end: the last proposal was evaluated', eqn(acq.pending, 0))
    return s


KIND = {None: 'unknown optimum', 0: 'optimum zero', 1: 'positive optimum', -1: 'negative optimum'}
SCENARIOS = [('single fidelity, %s, %s' % (KIND[k], 'row' if f else 'matrix'), mk_sf(k, f)) for k, f in
             [(None, 0), (0, 1), (1, 0), (-1, 1)]] + [
    ('constrained, %s, %s, %d constraints' % (KIND[k], 'row' if f else 'matrix', q), mk_cons(k, f, q), dict(union=True)) for k, f, q in
    [(None, 1, 2), (0, 0, 1), (1, 1, 1), (-1, 0, 2)]] + [
    ('multi-fidelity, %s, %s, %s' % (KIND[k], 'row' if f else 'matrix', n), mk_mf(k, f, n), dict(union=True)) for k, f, n in
    [(None, 0, 'HierarchicalKriging'), (0, 1, 'CoKriging'), (1, 0, 'ScaledKriging'), (-1, 1, 'HierarchicalKriging')]]
ASSUMPTIONS = ['the sampler, the problem, the acquisition function and the surrogate meet their contracts (checks/bo.py)',
               'a problem evaluates row by row', 'the fidelity proposed is 0 or 1']
