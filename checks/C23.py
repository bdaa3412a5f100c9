"""C23  evolutionary optimizers return the best evaluated point"""
from base import *
import bo
import ea
from ea import objrow, rows
from C22 import PSO, DEK, O


def below(best, ev, k, n):
    """best is at most every value evaluated up to generation k"""
    r, i = uvar('b', 'I', 0, ev._shape[0]), uvar('b', 'I', 0, to_poly(n))
    return FORALL([r, i], IMPL(AND(bo.within(r, k + ONE), bo.within(i, n)), to_bool(best <= E(ev, SNum(P(r)), SNum(P(i))))))


def upto(lo, k, f):
    """f(r) for lo <= r <= k"""
    r = uvar('b', 'I', 0, k + ONE)
    return FORALL([r], IMPL(AND(NOT(mkb('lt', (P(r) - P(lo),))), mkb('lt', (P(r) - k - ONE,))), to_bool(f(SNum(P(r))))))


def inv(f, d, n, g, stop, st, k, loop):
    r = {}
    q = getattr(loop, 'n', None)
    over = lambda m: q is None or q is to_poly(m)

    def add(name, b):
        try:
            r[name] = b()
        except Unsupported:
            pass
    nm = lambda p: '/'.join(str(q) for q in p[0]) + str(p[1])
    if over(g):
        r['one call per generation'] = eqn(f.calls, SNum(k) + 1)
    arrs = [(nm(p), x) for p, x in st.items() if isinstance(x, SArr) and x.ndim == 2]
    isr = lambda x, a, b: x._shape[0] is to_poly(a) and x._shape[1] is to_poly(b)
    G1 = SNum(to_poly(g) + ONE)
    for a, B_ in arrs:
        if isr(B_, n, 1):
            for c, X in arrs:
                if isr(X, n, d):
                    add('%s[i] is the value of %s[i]' % (a, c), lambda: rows(n, lambda i: eqn(E(B_, i, 0), objrow(X, i))))
        if isr(B_, G1, 1) and over(g):
            for c, X in arrs:
                if isr(X, G1, d):
                    add('%s[r] is the value of %s[r]' % (a, c), lambda: upto(0, k, lambda t: eqn(E(B_, t, 0), objrow(X, t))))
            last = E(B_, SNum(k), 0)
            r[a + ' never increases'] = upto(1, k, lambda t: E(B_, t, 0) <= E(B_, t - 1, 0))
            r[a + '[k] is at most every evaluated value'] = below(last, f.ev, k, n)
            for c, Y in arrs:
                if isr(Y, n, 1):
                    r['%s[k] is at most every %s[i]' % (a, c)] = rows(n, lambda i: last <= E(Y, i, 0))
                if isr(Y, n, d):
                    add('%s[k] is at most the value of every %s[i]' % (a, c), lambda: rows(n, lambda i: last <= objrow(Y, i)))
            r[a + '[k] is at most the lowest value so far'] = last <= E(f.low, SNum(k))
            r[a + '[k] is at least the lowest value so far'] = last >= E(f.low, SNum(k))
            r[a + '[r] is the lowest value so far'] = upto(0, k, lambda t: eqn(E(B_, t, 0), E(f.low, t)))
            if stop is not None:
                r[a + '[r] did not stop the run'] = upto(1, k, lambda t: Not(E(B_, t, 0) < stop))
    return r


def mk(cls, kw, stop, minpop=1):
    def s(v):
        k_ = {q: v.real(q) if x is None else x for q, x in kw.items()}
        o, f, d, n, g, ds, args = ea.build(v, cls, k_, minpop, False)
        sv = v.real('stop') if stop else None
        v.ver.templates = [lambda st, k, phase, loop: inv(f, d, n, g, sv, st, k, loop)]
        res, by, bx = o.run_optimizer(f, d, ds, False, False, sv, args)
        K = f.calls
        last = to_poly(K) - ONE
        by = SNum(to_poly(by))
        bx = asarr(bx)
        def show_(nm, b):
            v.ensure(nm, b)
        show_('the best value is at most every evaluated value', below(by, f.ev, last, n))
        show_('the best value is the lowest evaluated value', eqn(by, E(f.low, SNum(last))))
        v.ensure_shape('best point', bx, (d,))
        B1 = A.reshape(bx, (1, d))
        show_('the best point has the best value', eqn(objrow(B1, 0), by))
        v.ensure_eq('best point in the results', res['best_x'], bx)
        v.ensure_eq('best value in the results', res['best_y'], np_().array([by]))
        H, HX = asarr(res['best_y_historical']), asarr(res['best_x_historical'])
        v.ensure('one entry for the initial population and each generation', And(H._shape[0] is to_poly(g) + ONE, HX._shape[0] is to_poly(g) + ONE, K <= SNum(to_poly(g) + ONE)))
        show_('each entry is the lowest value up to its generation', upto(0, last, lambda t: eqn(E(H, t, 0), E(f.low, t))))
        show_('the history never increases', upto(1, last, lambda t: E(H, t, 0) <= E(H, t - 1, 0)))
        show_('each entry is the value of the listed point', upto(0, last, lambda t: eqn(E(H, t, 0), objrow(HX, t))))
        show_('the history ends with the best value', eqn(E(H, SNum(last), 0), by))
        full = eqn(K, SNum(to_poly(g) + ONE))
        if sv is None:
            show_('all generations were run', full)
        else:
            show_('the run was not stopped earlier', upto(1, last - ONE, lambda t: Not(E(H, t, 0) < sv)))
            show_('the run stopped at its end or below the stopping value', Or(full, And(K >= 2, by < sv)))
    return s


SCENARIOS = [('PSO', mk('PSO', PSO, 0), O), ('PSO, stopping value', mk('PSO', PSO, 1), O)]
for strat, m in [('DE/rand/1/bin', 3), ('DE/best/1/bin', 2)]:
    for stop in (0, 1):
        SCENARIOS.append((strat + ', stopping value' * stop, mk('DE', dict(DEK, strategy=strat), stop, minpop=m), O))
