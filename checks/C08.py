"""C08  HierarchicalKriging"""
from base import *


def mk(noise_kind, opt=False):
    def s(v):
        kern = {}

        def RBF(theta=None, bounds=None):
            kern['bounds'] = bounds
            return KernelStub(v, d)

        lf = {}

        def GP(**kw):
            lf.update(kw)
            lf['m'] = ModelStub(v, d, noise=kw.get('noise_prior'))
            return lf['m']
        M = 'mfpml.models.hierarchical_kriging'
        R = setup(v, {(M, 'RBF'): RBF, (M, 'GP'): GP})
        n, nl, d, m = v.dim('n', 2), v.dim('nl', 2), v.dim('d'), v.dim('m')
        H = R.load(M)
        ds = box(v, d)
        noise = {'zero': fl('0.0'), 'given': v.real('noise'), 'learned': None}[noise_kind]
        if noise_kind == 'given':
            v.assume(noise > 0)
        Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
        Xn = v.array('Xn', m, d)
        np = np_()
        v.assume(np.std(Yh) > 0)
        hk = H.HierarchicalKriging(design_space=ds, noise_prior=noise, optimizer_restart=v.int('restarts', 0))
        hk.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        st = lf['m']
        v.ensure('one training of the low-fidelity model', And(st.trained == 1))
        same(v, 'low-fidelity model: trained on the low-fidelity samples', st.X, Xl)
        same(v, 'low-fidelity model: trained on the low-fidelity responses', st.Y, Yl)
        same(v, 'low-fidelity model: the design space', lf['design_space'], ds)
        if noise_kind != 'learned':
            v.ensure('noise level is the given one', eqn(hk.noise, noise))
        mu, sd = np.mean(Yh), np.std(Yh)
        nz = hk.noise
        K = hk.kernel.get_kernel_matrix(scaled(Xh, ds), scaled(Xh, ds)) + np.eye(n) * (nz / sd) ** 2
        st_ = lambda a, q: spec((q, 1), lambda i, j: (E(a, i, 0) - mu) / sd)
        mean, var = kriging(K, st_(st.predict(Xh), n), st_(Yh, n),
                            hk.kernel.get_kernel_matrix(scaled(Xh, ds), scaled(Xn, ds)), st_(st.predict(Xn), m))
        mean = mean * sd + mu
        v.ensure_eq('mean = hierarchical kriging predictor', hk.predict(Xn), mean)
        got, std = hk.predict(Xn, return_std=True)
        v.ensure_eq('mean = hierarchical kriging predictor (with std)', got, mean)
        v.ensure_shape('std', std, (m, 1))
        v.ensure_forall('std^2 = max(kriging variance, 0) sd^2 + noise^2', [m], lambda i: And(
            E(std, i, 0) >= 0, Or(eqn(E(std, i, 0) ** 2, E(var, i, 0) * sd ** 2 + nz ** 2),
                                  And(E(var, i, 0) <= 0, eqn(E(std, i, 0) ** 2, nz ** 2)))))
        got, std = hk.predict_lf(Xn, return_std=True)
        a, c = st.predict(Xn, return_std=True)
        v.ensure_eq('predict_lf: mean of the low-fidelity model', got, a)
        v.ensure_eq('predict_lf: std of the low-fidelity model', std, c)
        v.ensure_eq('predict_lf: mean only', hk.predict_lf(Xn), a)
    return s


SCENARIOS = [('noise-free', mk('zero')), ('given noise', mk('given')), ('learned noise', mk('learned'))]
ASSUMPTIONS = ['the low-fidelity model meets its contract (ModelStub; GaussianProcessRegression: C07, C12)',
               'the kernel meets its contract (KernelStub; RBF: C05)']
