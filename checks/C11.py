"""C11  noise-free models interpolate"""
from base import *


def unit(gp, xs, i):
    """kernel contract (C05): unit diagonal"""
    return eqn(E(gp.kernel.get_kernel_matrix(xs, xs), i, i), 1 + fl('1e-10'))


def s_gp(v):
    M = 'mfpml.models.gaussian_process'
    R = setup(v)
    n, d, p = v.dim('n', 2), v.dim('d'), v.dim('p')
    G = R.load(M)
    ds = box(v, d)
    X, Y = v.array('X', n, d), v.array('Y', n, 1)
    v.assume(np_().std(Y) > 0)
    gp = G.GaussianProcessRegression(design_space=ds, kernel=KernelStub(v, d), regr=RowBasis(p), noise_prior=fl('0.0'),
                                     optimizer_restart=v.int('restarts', 0))
    gp.train(X, Y)
    v.ensure_eq('GP: the mean at the samples is the response', gp.predict(X), Y)
    got, std = gp.predict(X, return_std=True)
    v.ensure_eq('GP: the mean at the samples is the response (with std)', got, Y)
    lemma_var(v, gp, scaled(X, ds), RowBasis(p)(scaled(X, ds)), n)


def lemma_var(v, gp, xs, f, n):
    """the kriging variance factor (C07, C08) at the samples is 1 - K_ii = -1e-10: std is 0"""
    np = np_()
    K = gp.kernel.get_kernel_matrix(xs, xs)
    Ki = np.linalg.inv(K)
    R = f.T - np.dot(f.T, np.dot(Ki, K))
    A_ = np.linalg.inv(np.dot(f.T, np.dot(Ki, f)))
    a, c = np.dot(K.T, np.dot(Ki, K)), np.dot(R.T, np.dot(A_, R))
    v.ensure_forall('lemma: the variance factor at the samples is max(1 - K_ii, 0) = 0', [n], lambda i: Imp(
        unit(gp, xs, i), And(eqn(1 - E(a, i, i) + E(c, i, i), -fl('1e-10')))))


def s_hk(v):
    M = 'mfpml.models.hierarchical_kriging'
    n, nl, d = v.dim('n', 2), v.dim('nl', 2), v.dim('d')
    R = setup(v, {(M, 'RBF'): lambda **k: KernelStub(v, d),
                  (M, 'GP'): lambda **kw: ModelStub(v, d, noise=kw.get('noise_prior'))})
    H = R.load(M)
    ds = box(v, d)
    Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
    v.assume(np_().std(Yh) > 0)
    hk = H.HierarchicalKriging(design_space=ds, noise_prior=fl('0.0'), optimizer_restart=v.int('restarts', 0))
    hk.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
    v.ensure_eq('HK: the mean at the high-fidelity samples is the response', hk.predict(Xh), Yh)
    got, std = hk.predict(Xh, return_std=True)
    v.ensure_eq('HK: the mean at the high-fidelity samples is the response (with std)', got, Yh)
    F = spec((n, 1), lambda i, j: (E(hk.lfGP.predict(Xh), i, 0) - np_().mean(Yh)) / np_().std(Yh))
    v.ensure_eq('HK: regression values are the scaled low-fidelity predictions', hk.F, F)
    lemma_var(v, hk, scaled(Xh, ds), spec((n, 1), lambda i, j: SNum(app('F', [i.p]))), n)


def s_sk(v):
    M = 'mfpml.models.scale_kriging'
    n, nl, d = v.dim('n', 2), v.dim('nl', 2), v.dim('d')

    class Interp(ModelStub):
        """contract proved above: predict returns the response at the training points"""

        def predict(self, X, return_std=False):
            r = ModelStub.predict(self, X, return_std)
            m = r[0] if isinstance(r, tuple) else r
            if asarr(X)._shape[0] is self.X._shape[0] and self.name == 'disc' and E(X, 0, 0).p is E(self.X, 0, 0).p:
                m = self.Y
            return (m, r[1]) if isinstance(r, tuple) else m
    made = []

    def GP(**kw):
        made.append(Interp(v, d, name=['lf', 'disc'][len(made)], noise=kw.get('noise_prior')))
        return made[-1]
    R = setup(v, {(M, 'RBF'): lambda **k: KernelStub(v, d), (M, 'GaussianProcessRegression'): GP})
    S = R.load(M)
    ds = box(v, d)
    Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
    for kw in (dict(), dict(rho_optimize=True, rho_method='error')):
        made.clear()
        sk = S.ScaledKriging(design_space=ds, noise_prior=fl('0.0'), **kw)
        sk.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        v.ensure_eq('SK: the mean at the high-fidelity samples is the response %s' % list(kw.values()), sk.predict(Xh), Yh)


def s_ck(v):
    M = 'mfpml.models.co_kriging'
    import C10
    n, nl, d = v.dim('n', 2), v.dim('nl', 2), v.dim('d')
    cnt = []

    def RBF(theta=None, bounds=None):
        cnt.append(KernelStub(v, d, name='kern%d' % len(cnt)))
        return cnt[-1]

    def LF(design_space=None, noise_prior=None, **kw):
        r = C10.LfStub(v, d, noise=noise_prior)
        r.noise_prior = fl('0.0')
        r.kernel = KernelStub(v, d, name='kernl')
        return r
    R = setup(v, {(M, 'RBF'): RBF, (M, '_GP'): LF})
    v.c.ghost['name_scalars'] = True
    C = R.load(M)
    ds = box(v, d)
    Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
    np = np_()
    v.assume(np.std(Yh) > 0)
    ck = C.CoKriging(design_space=ds, noise_prior=fl('0.0'), optimizer_restart=v.int('restarts', 0))
    ck.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
    got = ck.predict(Xh)
    v.ensure_shape('CK: one value per sample', got, (n, 1))
    # (C + 1e-10 I) w = y - mu:  the residual at a sample is 1e-10 w
    LC = ck.LC
    w = np.linalg.solve(LC.T, np.linalg.solve(LC, ck.y - ck.mu))
    sd, mu = np.std(Yh), np.mean(Yh)
    Ce = ck.C + np.eye(nl + n) * fl('1e-10')
    m0 = E(ck.mu, 0, 0)

    def goal(i):
        solved = eqn(Sum(nl + n, lambda q: E(Ce, nl + i, q) * E(w, q, 0)), E(ck.y, nl + i, 0) - m0)
        return Imp(solved, eqn(E(got, i, 0), E(Yh, i, 0) - sd * fl('1e-10') * E(w, nl + i, 0)))
    v.ensure_forall('CK: the mean at a high-fidelity sample is the response up to the 1e-10 nugget', [n], goal)


SCENARIOS = [('GP', s_gp), ('HK', s_hk), ('SK', s_sk), ('CK', s_ck)]
ASSUMPTIONS = ['predictions are asked for the training inputs as one batch in training order (elsewhere the 1e-10 jitter of the '
               'kernel is at another place: runtime contracts with a tolerance)',
               'covariance matrices are invertible (positive definite), process variances are >= 0']
