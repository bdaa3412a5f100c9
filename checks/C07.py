"""C07  Gaussian process posterior"""
from base import *


def gpspec(v, gp, X, Y, ds, F, Xn, noise):
    """the kriging predictor at Xn, for the kernel parameters gp ended with"""
    np = np_()
    n, d = X.shape
    m = Xn.shape[0]
    sc = lambda A_, q: spec((q, d), lambda i, j: (E(A_, i, j) - E(ds, j, 0)) / (E(ds, j, 1) - E(ds, j, 0)))
    Xs, Ns = sc(X, n), sc(Xn, m)
    mu, sd = np.mean(Y), np.std(Y)
    y = spec((n, 1), lambda i, j: (E(Y, i, 0) - mu) / sd)
    ker = lambda A_, B_, q, r: gp.kernel.get_kernel_matrix(A_, B_)
    K = ker(Xs, Xs, n, n) + np.eye(n) * (noise / sd) ** 2
    Ki = np.linalg.inv(K)
    f, fn = F(Xs), F(Ns)
    kn = ker(Xs, Ns, n, m)
    A_ = np.linalg.inv(np.dot(f.T, np.dot(Ki, f)))
    beta = np.dot(A_, np.dot(f.T, np.dot(Ki, y)))
    r = y - np.dot(f, beta)
    gamma = np.dot(Ki, r)
    mean = np.dot(fn, beta) + np.dot(kn.T, gamma)
    mean = mean * sd + mu
    s2 = np.dot(r.T, gamma) / n
    Rm = fn.T - np.dot(f.T, np.dot(Ki, kn))
    var = spec((m, 1), lambda i, j: E(s2, 0, 0) * (1 - E(np.dot(kn.T, np.dot(Ki, kn)), i, i)
                                                   + E(np.dot(Rm.T, np.dot(A_, Rm)), i, i)))
    return mean, var * sd ** 2 + noise ** 2


def mk(noise_kind, basis='row'):
    def s(v):
        R = setup(v)
        n, d, m = v.dim('n', 2), v.dim('d'), v.dim('m')
        p = v.dim('p')
        G = R.load('mfpml.models.gaussian_process')
        ds = box(v, d)
        F = RowBasis(p)
        noise = {'zero': fl('0.0'), 'given': v.real('noise'), 'learned': None}[noise_kind]
        if noise_kind == 'given':
            v.assume(noise > 0)
        X, Y, Xn = v.array('X', n, d), v.array('Y', n, 1), v.array('Xn', m, d)
        v.assume(np_().std(Y) > 0)
        gp = G.GaussianProcessRegression(design_space=ds, kernel=KernelStub(v, d), regr=F, noise_prior=noise,
                                         optimizer_restart=v.int('restarts', 0))
        gp.train(X, Y)
        mean, var = gpspec(v, gp, X, Y, ds, F, Xn, gp.noise)
        if noise_kind != 'learned':
            v.ensure('noise level is the given one', eqn(gp.noise, noise))
        got = gp.predict(Xn)
        v.ensure_eq('mean = kriging predictor', got, mean)
        got, std = gp.predict(Xn, return_std=True)
        v.ensure_eq('mean = kriging predictor (with std)', got, mean)
        v.ensure_shape('std', std, (m, 1))
        v.ensure_forall('std^2 = max(kriging variance, 0)', [m], lambda i: And(
            E(std, i, 0) >= 0, Or(eqn(E(std, i, 0) ** 2, E(var, i, 0)), And(E(var, i, 0) <= 0, eqn(E(std, i, 0), 0)))))
    return s


SCENARIOS = [('noise-free', mk('zero')), ('given noise', mk('given')), ('learned noise', mk('learned'))]
