"""C10  CoKriging"""
from models import LfStub
from base import *

M = 'mfpml.models.co_kriging'


def mk(noise_kind, part):
    def s(v):
        kern = []

        def RBF(theta=None, bounds=None):
            kern.append(KernelStub(v, d, name='kern%d' % len(kern)))
            return kern[-1]

        def LF(design_space=None, noise_prior=None, **kw):
            r = LfStub(v, d, noise=noise_prior)
            r.noise_prior = fl('0.0')
            r.kernel = KernelStub(v, d, name='kernl')
            return r
        R = setup(v, {(M, 'RBF'): RBF} if part != 'hf' else {(M, 'RBF'): RBF, (M, '_GP'): LF})
        v.c.ghost['name_scalars'] = part == 'hf'
        n, nl, d, m = v.dim('n', 2), v.dim('nl', 2), v.dim('d'), v.dim('m')
        C = R.load(M)
        ds = box(v, d)
        noise = {'zero': fl('0.0'), 'given': v.real('noise'), 'learned': None}[noise_kind]
        if noise_kind == 'given':
            v.assume(noise > 0)
        Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
        Xn = v.array('Xn', m, d)
        np = np_()
        v.assume(np.std(Yh) > 0)
        ck = C.CoKriging(design_space=ds, noise_prior=noise, optimizer_restart=v.int('restarts', 0))
        ck.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        mu, sd = np.mean(Yh), np.std(Yh)
        st = lambda a, q: spec((q, 1), lambda i, j: (E(a, i, 0) - mu) / sd)
        xh, xl, xn, yh, yl = scaled(Xh, ds), scaled(Xl, ds), scaled(Xn, ds), st(Yh, n), st(Yl, nl)
        kl, kd = ck.lfGP.kernel.get_kernel_matrix, ck.kernel.get_kernel_matrix
        if noise_kind != 'learned':
            v.ensure('noise level is the given one', And(eqn(ck.noise * sd, noise), eqn(ck.lfGP.noise * sd, noise)))
        one = lambda q: np.ones((q, 1))
        if part == 'hf':
            return hf(v, np, ck, kl, kd, xl, xh, xn, yl, yh, nl, n, m, one, mu, sd, Xn)
        # low-fidelity process (ordinary kriging)
        Kl = kl(xl, xl) + np.eye(nl) * ck.lfGP.noise ** 2
        pl, _ = kriging(Kl, one(nl), yl, kl(xl, xh), one(n))
        if part == 'lf':
            ml, vl = kriging(Kl, one(nl), yl, kl(xl, xn), one(m))
            ml = ml * sd + mu
            v.ensure_eq('predict_lf: mean', ck.predict_lf(Xn), ml)
            got, std = ck.predict_lf(Xn, return_std=True)
            v.ensure_eq('predict_lf: mean (with std)', got, ml)
            v.ensure_forall('predict_lf: std', [m], lambda i: And(
                E(std, i, 0) >= 0, Or(eqn(E(std, i, 0) ** 2, (E(vl, i, 0) + ck.lfGP.noise ** 2) * sd ** 2),
                                      And(E(vl, i, 0) <= 0, eqn(E(std, i, 0) ** 2, ck.lfGP.noise ** 2 * sd ** 2)))))
            return
        _, s2l = ls2(np, Kl, one(nl), yl, nl)
        rho = ck.rho
        if part == 'disc':
            # difference process
            Kd = kd(xh, xh) + np.eye(n) * ck.noise ** 2
            dy = yh - pl * rho
            mud, s2d = ls2(np, Kd, one(n), dy, n)
            v.ensure_eq('low-fidelity prediction at the high-fidelity samples', ck.pred_ylh, pl)
            v.ensure_eq('low-fidelity process variance', ck.lfGP.sigma2, s2l)
            v.ensure('process variance of the difference', eqn(ck.sigma2, E(s2d, 0, 0)))
    return s


def hf(v, np, ck, kl, kd, xl, xh, xn, yl, yh, nl, n, m, one, mu, sd, Xn):
    rho, s2l, s2d, Kl, Kd = ck.rho, ck.lfGP.sigma2, ck.sigma2, ck.lfGP.K, ck.K
    same(v, 'low-fidelity process: trained on the normalised samples', ck.lfGP.X, xl)
    same(v, 'low-fidelity process: trained on the normalised responses', ck.lfGP.Y, yl)
    v.ensure_eq('low-fidelity prediction at the high-fidelity samples', ck.pred_ylh, ck.lfGP.predict(xh))
    v.ensure_eq('covariance of the difference process', Kd, kd(xh, xh) + np.eye(n) * ck.noise ** 2)
    s2l = A.item(s2l) if isinstance(s2l, SArr) else s2l
    cat = np.concatenate
    Cm = cat((cat((Kl * s2l, kl(xl, xh) * s2l * rho), axis=1),
              cat((kl(xh, xl) * s2l * rho, kl(xh, xh) * s2l * rho ** 2 + Kd * s2d), axis=1)), axis=0)
    Ci = np.linalg.inv(Cm + np.eye(nl + n) * fl('1e-10'))
    y = cat((yl, yh), axis=0)
    o = one(nl + n)
    mu_ = E(np.dot(o.T, np.dot(Ci, y)), 0, 0) / E(np.dot(o.T, np.dot(Ci, o)), 0, 0)
    c = cat((kl(xl, xn) * s2l * rho, kl(xh, xn) * s2l * rho ** 2 + kd(xh, xn) * s2d), axis=0)
    mean = (np.dot(c.T, np.dot(Ci, y - o * mu_)) + mu_) * sd + mu
    v.ensure_eq('mean = co-kriging predictor', ck.predict(Xn), mean)
    got, std = ck.predict(Xn, return_std=True)
    v.ensure_eq('mean = co-kriging predictor (with std)', got, mean)
    q = np.dot(c.T, np.dot(Ci, c))
    var = spec((m, 1), lambda i, j: s2l * rho ** 2 + s2d - E(q, i, i))
    v.ensure_shape('std', std, (m, 1))
    v.ensure_forall('std^2 = max(co-kriging variance, 0) sd^2 + noise^2', [m], lambda i: And(
        E(std, i, 0) >= 0, Or(eqn(E(std, i, 0) ** 2, (E(var, i, 0) + ck.noise ** 2) * sd ** 2),
                              And(E(var, i, 0) <= 0, eqn(E(std, i, 0) ** 2, ck.noise ** 2 * sd ** 2)))))


def ls2(np, K, f, y, n):
    Ki = np.linalg.inv(K)
    b_ = np.dot(np.linalg.inv(np.dot(f.T, np.dot(Ki, f))), np.dot(f.T, np.dot(Ki, y)))
    r = y - np.dot(f, b_)
    return b_, np.dot(r.T, np.dot(Ki, r)) / n


SCENARIOS = [('%s, %s noise' % (p, k), mk(k, p)) for p in ('lf', 'disc', 'hf') for k in ('zero', 'given', 'learned')]
ASSUMPTIONS = ['the kernels meet their contract (KernelStub; RBF: C05)']
