"""C20  multi-fidelity Bayesian optimization"""
from base import *
import bo

M = 'mfpml.optimization.mf_uncons_bo'
NAMES = {'HierarchicalKriging': 'hierarchical_kriging', 'ScaledKriging': 'scale_kriging', 'CoKriging': 'co_kriging'}


def build(v, name, optimum, flat, verbose=False):
    class Smp(bo.MFSampler):
        pass
    Smp.v = v
    K_ = {k: type(k, (bo.MFSurr,), {}) for k in NAMES}
    ov = {(M, 'mfpml.models.%s:%s' % (NAMES[k], k)): c for k, c in K_.items()}
    ov[(M, 'mfpml.design_of_experiment.mf_samplers:MFLatinHyperCube')] = Smp
    R = setup(v, ov)
    K = R.load(M).mfUnConsBayesOpt
    d, nh, nl = v.dim('d'), v.dim('nh'), v.dim('nl')
    p = bo.MFProblem(v, d, optimum)
    acq = bo.MFAcq(v, d, flat)
    o = K(problem=p, acquisition=acq, num_init=vc.L([nh, nl]), surrogate_name=name, seed=v.int('seed'), verbose=verbose)
    p.acq = acq
    v.ensure('the surrogate is a %s' % name, And(type(o.surrogate) is K_[name]))
    return o, p, acq, d, nh, nl


def parts(o, p):
    """data sets, by name"""
    G0, G1, s = p.data, p.lo, o.surrogate
    return [('high-fidelity points = the points evaluated', o.sample[0], G0.X), ('high-fidelity responses', o.response[0], G0.Y),
            ('low-fidelity points = the points evaluated', o.sample[1], G1.X), ('low-fidelity responses', o.response[1], G1.Y),
            ('surrogate trained on all high-fidelity points', s.X0, G0.X), ('surrogate trained on all high-fidelity responses', s.Y0, G0.Y),
            ('surrogate trained on all low-fidelity points', s.X1, G1.X), ('surrogate trained on all low-fidelity responses', s.Y1, G1.Y)]


def inv(o, p, nh, nl, d, k, acq, old='plan'):
    """loop invariants: what holds before every proposal"""
    r = {}
    for nm, a, c in parts(o, p):
        q = bo.same_rows(a, c)
        if q is not FALSE:
            r[nm + ' (number)'], r[nm] = q
    G0 = p.data
    for nm, G in [('high', p.data), ('low', p.lo)]:
        r['one response per %s-fidelity point' % nm] = EQ(asarr(G.X)._shape[0], asarr(G.Y)._shape[0])
    r['best is the lowest high-fidelity response'] = bo.no_lower(o.best, G0.Y)
    r['best_x has it'] = bo.attained(o.best, o.best_x, G0.X, G0.Y)
    pl = [('planH', nh, p.data), ('planL', nl, p.lo)] if old == 'plan' else [('oldXH', nh, p.data), ('oldXL', nl, p.lo)]
    for nm, n, G in pl:
        i, j = uvar('b', 'I', 0, n.p), uvar('b', 'I', 0, d.p)
        rng = AND(bo.within(i, n), bo.within(j, d))
        r['the %s comes first' % nm] = AND(LE(n.p, asarr(G.X)._shape[0]), FORALL([i, j], IMPL(rng, EQ(
            asarr(G.X).nsnap()((P(i), P(j))), app(nm, [P(i), P(j)])))))
    r['one evaluation per proposal'] = EQ(asarr(p.data.X)._shape[0] + asarr(p.lo.X)._shape[0], nh.p + nl.p + k)
    hb = o.history_best
    r['last history entry'] = eqn(hb.get(to_poly(vc.vlen(hb)) - ONE), o.best)
    if isinstance(vc.vlen(hb), int):
        r['history never increasing'] = TRUE
        return r
    i = uvar('b', 'I', 0, to_poly(vc.vlen(hb)))
    r['history never increasing'] = FORALL([i], IMPL(bo.within(i, vc.vlen(hb) - 1), to_bool(hb.get(P(i) + ONE) <= hb.get(P(i)))))
    return r


def start(v, tag, o, p, nh, nl):
    for nm, a, c in parts(o, p):
        same(v, tag + nm, a, c)
    v.ensure(tag + 'best is the lowest high-fidelity response', bo.no_lower(o.best, p.data.Y))
    v.ensure(tag + 'best_x has it', bo.attained(o.best, o.best_x, p.data.X, p.data.Y))


def mk_init(name):
    def s(v):
        o, p, acq, d, nh, nl = build(v, name, None, False)
        start(v, 'start: ', o, p, nh, nl)
        v.ensure_eq('the high-fidelity plan', p.data.X, v.array('planH', nh, d))
        v.ensure_eq('the low-fidelity plan', p.lo.X, v.array('planL', nl, d))
        pl = v.c.ghost['plans']
        v.ensure('one plan, with the asked numbers, two fidelities and the seed', And(
            len(pl) == 1, eqn(pl[0][1][0], nh), eqn(pl[0][1][1], nl), eqn(pl[0][2], o.seed), eqn(pl[0][3], 2)))
        v.ensure_eq('plan over the domain of the problem', pl[0][0], p.input_domain)
        v.ensure('one history entry, no query yet', And(eqn(vc.vlen(o.history_best), 1), eqn(vc.vlen(o.history_best_x), 1),
                                                        eqn(vc.vlen(o.fidelity_query_order), 0)))
        v.ensure('history of the best', eqn(o.history_best[0], o.best))
        v.ensure_eq('history of the best point', o.history_best_x[0], o.best_x)
    return s


def mk_run(name, optimum, flat, verbose=False):
    def s(v):
        opt = v.real('opt') if optimum else None
        o, p, acq, d, nh, nl = build(v, name, opt, flat, verbose)

        def before(kw):
            v.ensure('the surrogate and the best value are handed over', And(kw.get('mf_surrogate') is o.surrogate, eqn(kw['fmin'], o.best)))
            start(v, 'before every proposal: ', o, p, nh, nl)
        acq.before = before
        v.ver.templates = [lambda st, k, phase, loop: inv(o, p, nh, nl, d, k, acq)]
        cost = v.real('cost')
        o.run_optimizer(max_iter=v.int('max_iter'), cost_ratio=cost, stopping_error=v.real('stop'))
        k = acq.calls
        v.ensure('the last proposal was evaluated', eqn(acq.pending, 0))
        for nm, b_ in inv(o, p, nh, nl, d, to_poly(k), acq).items():
            v.ensure('end: ' + nm, b_)
        hb, hx, fo = o.history_best, o.history_best_x, o.fidelity_query_order
        v.ensure('one history entry per step', And(eqn(vc.vlen(hb), k + 1), eqn(vc.vlen(hx), k + 1), eqn(vc.vlen(fo), k)))
        v.ensure_forall('fidelity order = the proposed fidelities', [k], lambda i: eqn(fo.get(i.p), SNum(app('fid', [i.p], 'I'))))
    return s


def mk_again(name, flat):
    """a further run, from any state that earlier runs can leave behind"""
    def s(v):
        o, p, acq, d, nh, nl = build(v, name, v.real('opt'), flat)
        NH, NL, H, Q = v.dim('NH'), v.dim('NL'), v.dim('H'), v.dim('Q', 0)
        X0, X1 = v.array('oldXH', NH, d), v.array('oldXL', NL, d)
        Y0, Y1 = bo.rowval('obj', X0), bo.rowval('low', X1)
        o.sample, o.response = vc.L([X0, X1]), vc.L([Y0, Y1])
        p.data.X, p.data.Y, p.lo.X, p.lo.Y = A.copy(X0), A.copy(Y0), A.copy(X1), A.copy(Y1)
        o.surrogate.train(vc.L([A.copy(X0), A.copy(X1)]), vc.L([A.copy(Y0), A.copy(Y1)]))
        o.best, o.best_x = np_().min(Y0), X0[np_().argmin(Y0), :]
        hb0 = lambda i: SNum(app('oldhb', [to_poly(i)]))
        i = uvar('b', 'I', 0, H.p)
        v.assume(FORALL([i], IMPL(bo.within(i, H - 1), LE(hb0(SNum(P(i) + ONE)).p, hb0(SNum(P(i))).p))))
        v.assume(eqn(hb0(H - 1), o.best))
        o.history_best = SList(H.p, lambda i: hb0(SNum(i)))
        o.history_best_x = SList(H.p, lambda i: newarr(lambda idx: app('oldhx', [to_poly(i), idx[0]]), (d.p,), tag='num'))
        o.fidelity_query_order = SList(Q.p, lambda i: SNum(app('oldfo', [to_poly(i)], 'I')))
        c0 = acq.calls

        def before(kw):
            v.ensure('again: the surrogate and the best value are handed over', And(kw.get('mf_surrogate') is o.surrogate, eqn(kw['fmin'], o.best)))
            start(v, 'again, before every proposal: ', o, p, nh, nl)
        acq.before = before

        def old(st, k, phase, loop):
            r = inv(o, p, NH, NL, d, k, acq, 'old')
            hb = o.history_best
            r['history length'] = EQ(to_poly(vc.vlen(hb)), H.p + k)
            r['the old history is kept'] = FORALL([i], IMPL(bo.within(i, H), EQ(to_poly(hb.get(P(i))), hb0(SNum(P(i))).p)))
            return r
        v.ver.templates = [old]
        o.run_optimizer(max_iter=v.int('max_iter'), cost_ratio=v.real('cost'), stopping_error=v.real('stop'))
        k = acq.calls - c0
        v.ensure('again: the last proposal was evaluated', eqn(acq.pending, 0))
        for nm, b_ in inv(o, p, NH, NL, d, to_poly(k), acq, 'old').items():
            v.ensure('again, end: ' + nm, b_)
        hb, hx, fo = o.history_best, o.history_best_x, o.fidelity_query_order
        v.ensure('again: one history entry per step', And(eqn(vc.vlen(hb), k + H), eqn(vc.vlen(hx), k + H), eqn(vc.vlen(fo), k + Q)))
        v.ensure_forall('again: the old history is kept', [H], lambda i: eqn(SNum(to_poly(hb.get(i.p))), hb0(i)))
        v.ensure_forall('again: the old fidelity order is kept', [Q], lambda i: eqn(fo.get(i.p), SNum(app('oldfo', [i.p], 'I'))))
        v.ensure_forall('again: fidelity order = the proposed fidelities', [k], lambda i: eqn(
            fo.get(Q.p + i.p), SNum(app('fid', [to_poly(c0) + i.p], 'I'))))
    return s


def s_name(v):
    """an unknown surrogate is refused"""
    try:
        build(v, 'Kriging', None, False)
    except (ValueError, KeyError) as e:
        v.ensure('unknown surrogate refused', And(type(e).__name__ in ('ValueError', 'KeyError')))
    else:
        v.fail('unknown surrogate refused', 'accepted')


SCENARIOS = [('start ' + n, mk_init(n)) for n in NAMES] + [
    ('run HierarchicalKriging, unknown optimum, matrix', mk_run('HierarchicalKriging', 0, 0), {'union': True}),
    ('run CoKriging, known optimum, row', mk_run('CoKriging', 1, 1)),
    ('run ScaledKriging, known optimum, matrix, verbose', mk_run('ScaledKriging', 1, 0, True), {'union': True}),
    ('run again, matrix', mk_again('ScaledKriging', 0), {'union': True}), ('run again, row', mk_again('HierarchicalKriging', 1)),
    ('unknown surrogate', s_name)]
ASSUMPTIONS = ['the sampler, the problem, the acquisition function and the surrogate meet their contracts (checks/bo.py; C01-C03, C25, '
               'C17, C08-C12)', 'a problem evaluates row by row', 'the fidelity proposed is 0 or 1']
