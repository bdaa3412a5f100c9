"""C22  evolutionary optimizers call the objective properly"""
from base import *
import bo
import ea
from ea import inside, all_inside

STRAT = ['DE/rand/1/bin', 'DE/best/1/bin']


def part_inside(ds, X, k, n, d, axis):
    """the rows (columns) before k are within the bounds"""
    i, j = uvar('b', 'I', 0, to_poly(n)), uvar('b', 'I', 0, to_poly(d))
    return FORALL([i, j], IMPL(AND(bo.within(i, n), bo.within(j, d), LT(P([i, j][axis]), k)), inside(ds, X, SNum(P(i)), SNum(P(j)))))


def inv(o, f, d, n, g, ds, st, k, loop):
    """what may hold of the populations that a loop builds (candidates: those
    that do not hold are dropped)"""
    r = {}
    q = getattr(loop, 'n', None)
    over = lambda m: q is None or q is to_poly(m)
    if over(g):
        r['one call per generation'] = eqn(f.calls, SNum(k) + 1)
    for path, x in st.items():
        if isinstance(x, SArr) and x.ndim == 2 and x._shape[1] is to_poly(d):
            nm = '/'.join(str(q) for q in path[0]) + str(path[1])
            if x._shape[0] is to_poly(n):
                r[nm + ': within the bounds'] = all_inside(ds, x, n, d)
                if over(d):
                    r[nm + ': columns so far within the bounds'] = part_inside(ds, x, k, n, d, 1)
                if over(n):
                    r[nm + ': rows so far within the bounds'] = part_inside(ds, x, k, n, d, 0)
            elif over(g):
                m = SNum(x._shape[0])
                r[nm + ': rows written within the bounds'] = part_inside(ds, x, k + ONE, m, d, 0)
    return r


def mk(cls, kw, stop, verbose=False, save=False, minpop=1):
    def s(v):
        k_ = {q: v.real(q) if x is None else x for q, x in kw.items()}
        o, f, d, n, g, ds, args = ea.build(v, cls, k_, minpop)
        v.ver.templates = [lambda st, k, phase, loop: inv(o, f, d, n, g, ds, st, k, loop)]
        res, by, bx = o.run_optimizer(f, d, ds, verbose, save, v.real('stop') if stop else None, args)
        bx = asarr(bx)
        v.ensure_shape('best point', bx, (d,))
        v.ensure_forall('best point within bounds', [d], lambda j: And(E(ds, j, 0) <= E(bx, j), E(bx, j) <= E(ds, j, 1)))
        v.ensure_eq('best point in the results', res['best_x'], bx)
    return s


PSO = dict(cognition_rate=None, social_rate=None, weight=None, max_velocity_rate=None)
O = {'opaque': 12, 'wopaque': 14, 'keep': ('obj',)}
SCENARIOS = [('PSO', mk('PSO', PSO, 0), O), ('PSO, stopping value', mk('PSO', PSO, 1, True, True), O)]

DEK = dict(step_size=None, crossover_rate=None)
for strat, m in [('DE/rand/1/bin', 3), ('DE/best/1/bin', 2)]:
    for stop in (0, 1):
        SCENARIOS.append((strat + ', stopping value' * stop, (lambda strat, m, stop: mk('DE', dict(DEK, strategy=strat), stop, bool(stop), bool(stop), minpop=m))(strat, m, stop), O))
