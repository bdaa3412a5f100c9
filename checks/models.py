"""the four surrogates over stubbed callees (kernel, basis, low-fidelity model)"""
from base import *

GPM = 'mfpml.models.gaussian_process'
HKM = 'mfpml.models.hierarchical_kriging'
SKM = 'mfpml.models.scale_kriging'
CKM = 'mfpml.models.co_kriging'


class LfStub(ModelStub):
    """contract of the low-fidelity process _GP (C10 'lf', 'disc')"""

    def train(self, X, Y):
        ModelStub.train(self, X, Y)
        q = self.X._shape[0]
        if self.noise is None:
            self.noise = SNum(self.sym('noise', []))
            self.v.c.fact(LT(ZERO, self.noise.p))
        self.K = self.kernel.get_kernel_matrix(self.X, self.X) + np_().eye(SNum(q)) * self.noise ** 2
        s2 = self.sym('s2', [])
        self.sigma2 = newarr(lambda idx: s2, (ONE, ONE), tag='num')


class Env:
    """a fresh extraction, dimensions, a design space and model constructors"""

    def __init__(self, v, jitter=True, single=True, extra=None):
        self.v = v
        self.jitter = jitter
        self.d, self.m = v.dim('d'), v.dim('m')
        self.n = v.dim('n', 2)
        self.nl = v.dim('nl', 2)
        self.made = {}
        ov = {(HKM, 'RBF'): self.rbf, (HKM, 'GP'): self.gpstub, (SKM, 'RBF'): self.rbf, (SKM, 'GaussianProcessRegression'):
              self.gpstub, (CKM, 'RBF'): self.rbf, (CKM, '_GP'): self.lfstub}
        ov.update(extra or {})
        self.R = setup(v, ov)
        self.ds = box(v, self.d)
        v.c.ghost['name_scalars'] = True

    def nm(self, k):
        self.made.setdefault(k, []).append(None)
        return '%s%d' % (k, len(self.made[k]))

    def rbf(self, theta=None, bounds=None):
        return KernelStub(self.v, self.d, name=self.nm('kern'), jitter=self.jitter)

    def gpstub(self, **kw):
        r = ModelStub(self.v, self.d, name=self.nm('gp') + '_', noise=kw.get('noise_prior'))
        r.kernel = KernelStub(self.v, self.d, name=self.nm('kern'), jitter=self.jitter)
        return r

    def lfstub(self, design_space=None, noise_prior=None, **kw):
        r = LfStub(self.v, self.d, name=self.nm('lf') + '_', noise=noise_prior)
        r.noise_prior = fl('0.0')
        r.kernel = KernelStub(self.v, self.d, name=self.nm('kern'), jitter=self.jitter)
        return r

    def model(self, kind, noise, p=1, **kw):
        """a fresh model (same symbolic configuration every time)"""
        v = self.v
        self.made = {}
        kw.setdefault('optimizer_restart', v.int('restarts', 0))
        if kind == 'gp':
            G = self.R.load(GPM)
            kw.setdefault('kernel', KernelStub(v, self.d, name=self.nm('kern'), jitter=self.jitter))
            return G.GaussianProcessRegression(design_space=self.ds, regr=RowBasis(p), noise_prior=noise, **kw)
        if kind == 'hk':
            return self.R.load(HKM).HierarchicalKriging(design_space=self.ds, noise_prior=noise, **kw)
        if kind == 'sk':
            return self.R.load(SKM).ScaledKriging(design_space=self.ds, noise_prior=noise, **kw)
        return self.R.load(CKM).CoKriging(design_space=self.ds, noise_prior=noise, **kw)

    def data(self, kind, tag='', n=None, nl=None):
        v, d = self.v, self.d
        n, nl = n if n is not None else self.n, nl if nl is not None else self.nl
        if kind == 'gp':
            X, Y = v.array('X' + tag, n, d), v.array('Y' + tag, n, 1)
            v.assume(np_().std(Y) > 0)
            return X, Y
        Xh, Yh = v.array('Xh' + tag, n, d), v.array('Yh' + tag, n, 1)
        Xl, Yl = v.array('Xl' + tag, nl, d), v.array('Yl' + tag, nl, 1)
        v.assume(np_().std(Yh) > 0)
        return vc.L([Xh, Xl]), vc.L([Yh, Yl])

    def noise(self, kind):
        if kind == 'zero':
            return fl('0.0')
        if kind == 'given':
            r = self.v.real('noise')
            self.v.assume(r > 0)
            return r
        return None
