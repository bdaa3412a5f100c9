"""C12  predict is a pure, row-by-row function of the trained model"""
from models import *


def mk(kind, noise_kind):
    def s(v):
        e = Env(v, jitter=False)
        m = e.model(kind, e.noise(noise_kind))
        m.train(*e.data(kind))
        X1, X2 = v.array('X1', e.m, e.d), v.array('X2', v.dim('m2'), e.d)
        a = m.predict(X1)
        v.ensure_shape('mean: one row per point', a, (e.m, 1))
        b_, s_ = m.predict(X1, return_std=True)
        v.ensure_eq('the mean does not depend on return_std', b_, a)
        v.ensure_shape('std: one row per point', s_, (e.m, 1))
        v.ensure_forall('std >= 0', [e.m], lambda i: E(s_, i, 0) >= 0)
        m.predict(X2, return_std=True)
        if kind != 'gp':
            m.predict_lf(X2, return_std=True)
        c, t = m.predict(X1, return_std=True)
        v.ensure_eq('mean: unchanged by other predictions', c, a)
        v.ensure_eq('std: unchanged by other predictions', t, s_)
        i = uvar('row', 'I', 0, e.m.p)
        v.c.fact(NOT(mkb('lt', (P(i),))))
        v.c.fact(mkb('lt', (P(i) - e.m.p,)))
        one = spec((1, e.d), lambda r, j: E(X1, SNum(P(i)), j))
        c, t = m.predict(one, return_std=True)
        v.ensure('mean: each row on its own', eqn(E(c, 0, 0), E(a, SNum(P(i)), 0)))
        v.ensure('std: each row on its own', eqn(E(t, 0, 0), E(s_, SNum(P(i)), 0)))
        one = spec((e.d,), lambda j: E(X1, SNum(P(i)), j))
        c, t = m.predict(one, return_std=True)
        v.ensure_shape('a single point counts as one row', c, (1, 1))
        v.ensure('mean: single point', eqn(E(c, 0, 0), E(a, SNum(P(i)), 0)))
        v.ensure('std: single point', eqn(E(t, 0, 0), E(s_, SNum(P(i)), 0)))
        if kind != 'gp':
            a, s_ = m.predict_lf(X1, return_std=True)
            v.ensure_eq('predict_lf: the mean does not depend on return_std', m.predict_lf(X1), a)
            v.ensure_shape('predict_lf: one row per point', a, (e.m, 1))
            v.ensure_forall('predict_lf: std >= 0', [e.m], lambda i: E(s_, i, 0) >= 0)
            for one in (spec((1, e.d), lambda r, j: E(X1, SNum(P(i)), j)), one):
                c, t = m.predict_lf(one, return_std=True)
                v.ensure_shape('predict_lf: one row for one point', c, (1, 1))
                v.ensure('predict_lf: mean of each row on its own', eqn(E(c, 0, 0), E(a, SNum(P(i)), 0)))
                v.ensure('predict_lf: std of each row on its own', eqn(E(t, 0, 0), E(s_, SNum(P(i)), 0)))
    return s


SCENARIOS = [('%s, %s noise' % (k, z), mk(k, z)) for k in ('gp', 'hk', 'sk', 'ck') for z in ('zero', 'given', 'learned')]
ASSUMPTIONS = ['row independence is proved for the kernel without its 1e-10 jitter on the diagonal of rectangular matrices (which '
               'depends on the position in the batch); the runtime contracts use a tolerance',
               'callees (kernel, basis, low-fidelity model) meet their contracts']
