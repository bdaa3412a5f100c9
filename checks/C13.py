"""C13  retraining is training afresh"""
from models import *


def mk(kind, noise_kind, restarts=1, **kw):
    def s(v):
        if kind != 'sk':
            kw['optimizer_restart'] = restarts
        e = Env(v)
        ModelStub.bydata = True
        noise = e.noise(noise_kind)
        m1 = e.model(kind, noise, **kw)
        D0 = e.data(kind, '0', n=v.dim('n0', 2), nl=v.dim('nl0', 2))
        D1 = e.data(kind, '1')
        Xn = v.array('Xn', e.m, e.d)
        m1.train(*D0)
        m1.predict(Xn, return_std=True)
        v.c.rng = N.RNG(SNum(P(var('rng1', 'I'))))
        m1.train(*D1)
        m2 = e.model(kind, noise, **kw)
        v.c.rng = N.RNG(SNum(P(var('rng1', 'I'))))
        m2.train(*D1)
        a, sa = m1.predict(Xn, return_std=True)
        b_, sb = m2.predict(Xn, return_std=True)
        v.ensure_eq('mean as trained afresh', a, b_)
        v.ensure_eq('std as trained afresh', sa, sb)
        if kind != 'gp':
            a, sa = m1.predict_lf(Xn, return_std=True)
            b_, sb = m2.predict_lf(Xn, return_std=True)
            v.ensure_eq('predict_lf mean as trained afresh', a, b_)
            v.ensure_eq('predict_lf std as trained afresh', sa, sb)
        if kind != 'sk':
            v.ensure('noise as trained afresh', eqn(m1.noise, m2.noise))
    return s


SCENARIOS = [('%s, %s noise' % (k, z), mk(k, z)) for k in ('gp', 'hk', 'ck') for z in ('zero', 'given', 'learned')]
SCENARIOS += [('sk', mk('sk', 'learned')), ('sk, searched scale', mk('sk', 'given', rho_optimize=True, rho_method='error'))]
ASSUMPTIONS = ['optimizer_restart = 1 (the contract of the restart loop for any number of restarts: C14)', 'both trainings see the same state of the random generator and the same optimizer',
               'callees (kernel, basis, low-fidelity model) meet their contracts; their training is a function of the training set']
