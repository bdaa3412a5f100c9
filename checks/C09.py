"""C09  ScaledKriging"""
from base import *

M = 'mfpml.models.scale_kriging'


def mk(rho_kind, user=False):
    def s(v):
        made = []

        def GP(**kw):
            made.append((kw, ModelStub(v, d, name='gp%d_' % len(made), noise=kw.get('noise_prior'))))
            return made[-1][1]
        R = setup(v, {(M, 'GaussianProcessRegression'): GP, (M, 'RBF'): lambda **k: KernelStub(v, d)})
        n, nl, d, m = v.dim('n'), v.dim('nl'), v.dim('d'), v.dim('m')
        S = R.load(M)
        ds = box(v, d)
        noise = v.real('noise')
        v.assume(noise >= 0)
        Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
        Xn = v.array('Xn', m, d)
        mins = v.c.ghost['minimize'] = []
        lo, hi = v.real('lo'), v.real('hi')
        v.assume(lo < hi)
        kw = dict(rho_optimize=False) if rho_kind == 'fixed' else dict(rho_optimize=True, rho_method=rho_kind)
        if user:
            kw.update(lfGP=ModelStub(v, d, name='ulf', noise=noise), disc_model=ModelStub(v, d, name='udisc', noise=noise))
        sk = S.ScaledKriging(design_space=ds, noise_prior=noise, rho_bound=vc.L([lo, hi]), **kw)
        if user:
            lf, disc = kw['lfGP'], kw['disc_model']
        else:
            lf, disc = made[0][1], made[1][1]
            for (k, st), nm in zip(made, ('low-fidelity', 'discrepancy')):
                same(v, '%s model: the design space' % nm, k['design_space'], ds)
                v.ensure('%s model: noise prior' % nm, eqn(k['noise_prior'], noise))
        v.ensure('the given models are used', And(sk.lfGP is lf, sk.disc_model is disc))
        sk.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        same(v, 'low-fidelity model: trained on the low-fidelity samples', lf.X, Xl)
        same(v, 'low-fidelity model: trained on the low-fidelity responses', lf.Y, Yl)
        lfh = lf.predict(Xh)
        rho = sk.rho
        rho = A.item(rho) if isinstance(rho, SArr) else SNum(to_poly(rho))
        if rho_kind == 'fixed':
            v.ensure('scale factor 1', eqn(rho, 1))
        else:
            v.ensure('one search for the scale factor', And(len(mins) == 1))
            x, f, b_, fun = mins[0][:4]
            b_ = bounds_arr(b_)
            v.ensure('scale factor = minimiser found', eqn(rho, E(x, 0)))
            v.ensure('search bounds = rho_bound', And(eqn(E(b_, 0, 0), lo), eqn(E(b_, 0, 1), hi)))
            if rho_kind == 'error':
                t = v.real('t')
                got = fun(newarr(lambda idx: t.p, (1,), tag='num'))
                v.ensure_eq('objective = squared error at the high-fidelity samples', got, spec((1,), lambda i: Sum(
                    n, lambda j: (t * E(lfh, j, 0) - E(Yh, j, 0)) ** 2)))
        same(v, 'discrepancy model: trained at the high-fidelity samples', disc.X, Xh)
        same(v, 'discrepancy model: trained on Yh - rho lf(Xh)', disc.Y,
             spec((n, 1), lambda i, j: E(Yh, i, 0) - rho * E(lfh, i, 0)))
        a, sa = lf.predict(Xn, return_std=True)
        c, sc = disc.predict(Xn, return_std=True)
        want = spec((m, 1), lambda i, j: rho * E(a, i, 0) + E(c, i, 0))
        v.ensure_eq('mean = rho lf + disc', sk.predict(Xn), want)
        got, std = sk.predict(Xn, return_std=True)
        v.ensure_eq('mean = rho lf + disc (with std)', got, want)
        ensure_std(v, 'std^2 = rho^2 lf_std^2 + disc_std^2', std,
                   spec((m, 1), lambda i, j: rho ** 2 * E(sa, i, 0) ** 2 + E(sc, i, 0) ** 2), m)
        got, std = sk.predict_lf(Xn, return_std=True)
        v.ensure_eq('predict_lf: mean of the low-fidelity model', got, a)
        v.ensure_eq('predict_lf: std of the low-fidelity model', std, sa)
    return s


SCENARIOS = [('fixed', mk('fixed')), ('fixed, user models', mk('fixed', True)), ('error', mk('error')),
             ('error, user models', mk('error', True))]
ASSUMPTIONS = ['low-fidelity and discrepancy models meet their contract (ModelStub; GaussianProcessRegression: C07, C12)']
BOUNDED = [{'function': "ScaledKriging._rho_optimize, rho_method='bumpiness'", 'bound': 'runtime contracts only'}]
