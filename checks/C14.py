"""C14  hyper-parameters stay in their bounds and keep the best restart

The optimizers are any optimizers that return a point within the bounds they are
given and the value of the objective there (stub contracts: scipy's minimize;
DE / PSO: C22, C23).  The stub of `minimize` keeps a ghost record of the lowest
value of the restarts; `nll` is the objective as a function of the parameters."""
from base import *
from models import LfStub, GPM, HKM, CKM
import bo

LO, HI = '1e-5', '10.0'


def val(env, z):
    """the objective at the parameters z"""
    z = asarr(z)
    k, t, n = env.heads, env.tails, SNum(z._shape[0])
    rest = A.reshape(z[k:n - t], (1, n - k - t))
    return SNum(app('nll', [to_poly(E(z, i)) for i in range(k)] + [to_poly(E(z, n - 1 - i)) for i in range(t)] + [bo.rowcode(rest, ZERO)]))


class Minimize:
    """contract of scipy.optimize.minimize with bounds, called again and again"""
    _vc_heap = True

    def __init__(self, v, env):
        self.v, self.env = v, env
        self.calls = SNum(ZERO)
        self.low = SNum(P(var('low0', 'R')))       # lowest value of the calls so far

    def __call__(self, fun, x0, args=(), method=None, bounds=None, **kw):
        v, k = self.v, self.calls
        b = N._bounds(bounds)
        if b is None:
            raise Unsupported('search without bounds')
        x0 = A.ravel(asarr(x0))
        n = self.env.dims
        v.ensure_shape('start of the search', x0, (n,))
        self.env.search(v, fun, args, b)
        x = newarr(lambda idx: app('mx', [to_poly(k), idx[0]]), (to_poly(n),), tag='num')
        inbounds(v, x, b, n)
        m = val(self.env, x)
        self.low = SNum(ITE(to_bool(eqn(k, SNum(ZERO))), m.p, to_poly(np_().minimum(self.low, m))))
        self.calls = k + 1
        return N.OptResult(x=x, fun=m, message='', **N._report('m', [to_poly(k)]))


def inbounds(v, x, b, n):
    j = uvar('b', 'I', 0, to_poly(n))
    q = SNum(P(j))
    v.c.fact(FORALL([j], IMPL(bo.within(j, n), to_bool(And(SNum(b[0]((P(j),))) <= E(x, q), E(x, q) <= SNum(b[1]((P(j),))))))))


class Opt:
    """contract of the population optimizers (C22, C23)"""
    _vc_heap = True

    def __init__(self, v, env):
        self.v, self.env = v, env
        self.calls = SNum(ZERO)

    def run_optimizer(self, func=None, num_dim=None, design_space=None, **kw):
        v, n = self.v, self.env.dims
        v.ensure('dimension of the search', eqn(num_dim, n))
        b = N._bounds(design_space)
        self.env.search(v, func, (), b, v.dim('pop'))
        k = to_poly(self.calls)
        x = newarr(lambda idx: app('mx', [k, idx[0]]), (to_poly(n),), tag='num')
        inbounds(v, x, b, n)
        self.calls = self.calls + 1
        self.low = low = val(self.env, x)
        by = newarr(lambda idx: low.p, (1,), tag='num')
        return {'best_x': x, 'best_y': by}, self.low, x


class Env:
    """what the search has to look like: lo, hi functions of the index; nll(z,
    n) the likelihood of the parameters z"""

    def __init__(self, v, lo, hi, nll, dims, heads=0, tails=0):
        self.heads, self.tails = heads, tails          # parameters before and after the kernel's
        self.lo, self.hi, self.nll, self.dims = lo, hi, nll, dims

    def search(self, v, fun, args, b, pop=None):
        n = self.dims
        named, v.c.ghost['name_scalars'] = v.c.ghost.get('name_scalars'), False
        try:
            self.compare(v, fun, args, b, pop)
        finally:
            v.c.ghost['name_scalars'] = named

    def compare(self, v, fun, args, b, pop):
        n = self.dims
        v.ensure('number of hyper-parameters', eqn(SNum(b[2]), n))
        v.ensure_forall('search bounds', [n], lambda j: And(eqn(SNum(b[0]((j.p,))), self.lo(j)), eqn(SNum(b[1]((j.p,))), self.hi(j))))
        if pop is None:
            z = newarr(lambda idx: app('z', [idx[0]]), (to_poly(n),), tag='num')
            got = asarr(fun(z, *args))
            v.ensure('one value', And(to_poly(got.size) is ONE))
            v.ensure('objective = negative log-likelihood', eqn(SNum(A.item(got).p if isinstance(A.item(got), SNum) else to_poly(A.item(got))), self.nll(lambda j: E(z, j))))
        else:
            Z = newarr(lambda idx: app('Z', list(idx)), (to_poly(pop), to_poly(n)), tag='num')
            got = A.ravel(asarr(fun(Z, *args)))
            v.ensure_shape('one value per row', got, (pop,))
            v.ensure_forall('objective = negative log-likelihood', [pop], lambda i: eqn(E(got, i), self.nll(lambda j: E(Z, i, j))))


def likelihood(K, f, y, n, conc):
    """negative log-likelihood of y ~ N(f b, s2 K), concentrated over b, and over
    s2 if conc (else s2 = 1)"""
    np = np_()
    Ki = np.linalg.inv(K)
    b_ = np.dot(np.linalg.inv(np.dot(f.T, np.dot(Ki, f))), np.dot(f.T, np.dot(Ki, y)))
    r = y - np.dot(f, b_)
    s2 = E(np.dot(r.T, np.dot(Ki, r)), 0, 0) / n
    L = np.linalg.cholesky(K)
    half = Sum(n, lambda i: np.log(E(L, i, i)))
    return n * (np.log(s2) if conc else s2) * fl('0.5') + half


def inv(env, st, k, loop):
    r = {}
    s = env.stub
    r['calls'] = eqn(s.calls, SNum(k))
    D = to_poly(env.dims)
    for p, x in st.items():
        nm = '/'.join(str(q) for q in p[0]) + str(p[1])
        try:
            if isinstance(x, SArr) and x.ndim == 1 and x._shape[0] is D:
                r[nm + ' has the lowest value'] = eqn(val(env, x), s.low)
                j = uvar('b', 'I', 0, D)
                q = SNum(P(j))
                r[nm + ' within the bounds'] = FORALL([j], IMPL(bo.within(j, env.dims), to_bool(And(env.lo(q) <= E(x, q), E(x, q) <= env.hi(q)))))
            elif isinstance(x, SNum):
                r[nm + ' is the lowest value'] = eqn(x, s.low)
        except Unsupported:
            pass
    return r


def final(v, env, z, restarts, opt):
    """the parameters z the model ended with"""
    v.ensure_shape('parameters', z, (env.dims,))
    v.ensure('number of searches', eqn(env.stub.calls, 1 if opt else restarts + 1))
    v.ensure_forall('parameters within the search bounds', [env.dims], lambda j: And(env.lo(j) <= E(z, j), E(z, j) <= env.hi(j)))
    v.ensure('parameters with the lowest likelihood found', eqn(val(env, z), env.stub.low))


def kern(ks, off=0):
    """bounds of kernel ks from parameter off on"""
    lo, hi = asarr(ks._get_low_bound), asarr(ks._get_high_bound)
    return (lambda j: E(lo, j - off)), (lambda j: E(hi, j - off))


def ite(c, a, b_):
    return SNum(ITE(to_bool(c), to_poly(a), to_poly(b_)))


def noise_of(v, kind):
    noise = {'zero': fl('0.0'), 'given': v.real('noise'), 'learned': None}[kind]
    if kind == 'given':
        v.assume(noise > 0)
    return noise


def setup_search(v, opt):
    cell = {}

    def m(*a, **k):
        return cell['stub'](*a, **k)
    return cell, m


def params(kind, d, lo, hi, noise, theta_first=True):
    """bounds and decomposition (theta, noise level) of the search vector"""
    if kind != 'learned':
        return d, lo, hi, (lambda z: z), (lambda z: noise)
    return d + 1, (lambda j: ite(j < d, lo(j), fl(LO))), (lambda j: ite(j < d, hi(j), fl(HI))), (lambda z: z), (lambda z: z(SNum(to_poly(d))))


def gp(kind, opt, norm=True):
    def s(v):
        cell, m = setup_search(v, opt)
        M = GPM if norm else CKM
        R = setup(v, {(M, 'minimize'): m})
        n, d, p = v.dim('n', 2), v.dim('d'), v.dim('p')
        G = R.load(M)
        ds = box(v, d)
        F = RowBasis(p)
        noise = noise_of(v, kind)
        X, Y = v.array('X', n, d), v.array('Y', n, 1)
        np = np_()
        if norm:
            v.assume(np.std(Y) > 0)
            mu, sd = np.mean(Y), np.std(Y)
            xs, ys = scaled(X, ds), spec((n, 1), lambda i, j: (E(Y, i, 0) - mu) / sd)
        else:
            sd, xs, ys = fl('1.0'), X, Y
        ks = KernelStub(v, d)
        lo, hi = kern(ks)
        D, lo, hi, th, nz = params(kind, d, lo, hi, None if noise is None else noise / sd)

        def nll(z):
            raw = spec((d,), lambda j: z(j))
            K = ks.mat(xs, xs, raw) + np.eye(n) * nz(z) ** 2
            return likelihood(K, F(xs), ys, n, kind == 'zero')
        env = Env(v, lo, hi, nll, D, 0, 1 if kind == 'learned' else 0)
        env.stub = cell['stub'] = (Opt if opt else Minimize)(v, env)
        v.ver.templates = [lambda st, k, phase, loop: inv(env, st, k, loop)] if not opt else []
        q = v.int('restarts', 0)
        kw = dict(design_space=ds, kernel=ks, regr=F, noise_prior=noise, optimizer_restart=q)
        if opt:
            kw['optimizer'] = env.stub
        o = (G.GaussianProcessRegression if norm else G._GP)(**kw)
        o.train(X, Y)
        raw = asarr(ks.raw)
        z = raw if kind != 'learned' else spec((d + 1,), lambda j: ite(j < d, E(raw, j), o.noise / sd))
        final(v, env, z, q, opt)
        if kind != 'learned':
            v.ensure('noise level is the given one', eqn(o.noise, noise))
        v.ensure('the kernel of the model', And(o.kernel is ks))
    return s


def hk(kind, opt):
    def s(v):
        cell, m = setup_search(v, opt)
        ker = []

        def RBF(theta=None, bounds=None):
            ker.append(KernelStub(v, d))
            return ker[-1]
        R = setup(v, {(HKM, 'RBF'): RBF, (HKM, 'GP'): lambda **kw: ModelStub(v, d, noise=kw.get('noise_prior')), (HKM, 'minimize'): m})
        v.c.ghost['name_stats'] = True
        n, nl, d = v.dim('n', 2), v.dim('nl', 2), v.dim('d')
        H = R.load(HKM)
        ds = box(v, d)
        noise = noise_of(v, kind)
        Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
        np = np_()
        v.assume(np.std(Yh) > 0)
        mu, sd = np.mean(Yh), np.std(Yh)
        q = v.int('restarts', 0)
        kw = dict(design_space=ds, noise_prior=noise, optimizer_restart=q)
        if opt:
            cell['opt'] = kw['optimizer'] = Opt(v, None)
        o = H.HierarchicalKriging(**kw)
        ks = ker[0]
        lo, hi = kern(ks)
        D, lo, hi, th, nz = params(kind, d, lo, hi, None if noise is None else noise / sd)
        st_ = lambda a: spec((n, 1), lambda i, j: (E(a, i, 0) - mu) / sd)

        def nll(z):
            raw = spec((d,), lambda j: z(j))
            K = ks.mat(scaled(Xh, ds), scaled(Xh, ds), raw) + np.eye(n) * nz(z) ** 2
            return likelihood(K, st_(o.lfGP.predict(Xh)), st_(Yh), n, kind == 'zero')
        env = Env(v, lo, hi, nll, D, 0, 1 if kind == 'learned' else 0)
        env.stub = cell['stub'] = cell.get('opt') or Minimize(v, env)
        env.stub.env = env
        v.ver.templates = [lambda st, k, phase, loop: inv(env, st, k, loop)] if not opt else []
        o.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        raw = asarr(o.kernel.raw)
        z = raw if kind != 'learned' else spec((d + 1,), lambda j: ite(j < d, E(raw, j), o.noise / sd))
        final(v, env, z, q, opt)
        if kind != 'learned':
            v.ensure('noise level is the given one', eqn(o.noise, noise))
    return s


def ck(kind, opt):
    def s(v):
        cell, m = setup_search(v, opt)
        ker = []

        def RBF(theta=None, bounds=None):
            ker.append(KernelStub(v, d, name='kern%d' % len(ker)))
            return ker[-1]

        def LF(design_space=None, noise_prior=None, **kw):
            r = LfStub(v, d, noise=noise_prior)
            r.noise_prior = fl('0.0')
            r.kernel = KernelStub(v, d, name='kernl')
            return r
        R = setup(v, {(CKM, 'RBF'): RBF, (CKM, '_GP'): LF, (CKM, 'minimize'): m})
        v.c.ghost['name_scalars'] = True
        n, nl, d = v.dim('n', 2), v.dim('nl', 2), v.dim('d')
        C = R.load(CKM)
        ds = box(v, d)
        noise = noise_of(v, kind)
        Xh, Yh, Xl, Yl = v.array('Xh', n, d), v.array('Yh', n, 1), v.array('Xl', nl, d), v.array('Yl', nl, 1)
        np = np_()
        v.assume(np.std(Yh) > 0)
        mu, sd = np.mean(Yh), np.std(Yh)
        q = v.int('restarts', 0)
        r0, r1 = v.real('rho0'), v.real('rho1')
        v.assume(r0 < r1)
        kw = dict(design_space=ds, noise_prior=noise, optimizer_restart=q, rho_bound=vc.L([r0, r1]))
        if opt:
            cell['opt'] = kw['optimizer'] = Opt(v, None)
        o = C.CoKriging(**kw)
        ks = o.kernel
        off = 2 if kind == 'learned' else 1
        klo, khi = kern(ks, off)
        if kind == 'learned':
            lo = lambda j: ite(j < 1, r0, ite(j < 2, fl(LO), klo(j)))
            hi = lambda j: ite(j < 1, r1, ite(j < 2, fl(HI), khi(j)))
        else:
            lo, hi = (lambda j: ite(j < 1, r0, klo(j))), (lambda j: ite(j < 1, r1, khi(j)))
        xs = scaled(Xh, ds)

        def nll(z):
            raw = spec((d,), lambda j: z(j + off))
            nz = z(SNum(ONE)) if kind == 'learned' else noise / sd
            K = ks.mat(xs, xs, raw) + np.eye(n) * nz ** 2
            pl = o.lfGP.predict(xs)
            dy = spec((n, 1), lambda i, j: (E(Yh, i, 0) - mu) / sd - z(SNum(ZERO)) * E(pl, i, 0))
            return likelihood(K, np.ones((n, 1)), dy, n, kind == 'zero')
        env = Env(v, lo, hi, nll, d + off, off)
        env.stub = cell['stub'] = cell.get('opt') or Minimize(v, env)
        env.stub.env = env
        v.ver.templates = [lambda st, k, phase, loop: inv(env, st, k, loop)] if not opt else []
        o.train(vc.L([Xh, Xl]), vc.L([Yh, Yl]))
        raw = asarr(o.kernel.raw)
        rho = o.rho
        if kind == 'learned':
            z = spec((d + 2,), lambda j: ite(j < 1, rho, ite(j < 2, o.noise, E(raw, j - 2))))
        else:
            z = spec((d + 1,), lambda j: ite(j < 1, rho, E(raw, j - 1)))
            v.ensure('noise level is the given one', eqn(o.noise * sd, noise))
        final(v, env, z, q, opt)
    return s


SCENARIOS = []
for kind in ('zero', 'given', 'learned'):
    for opt in (False, True):
        for nm, f in (('Gaussian process', gp), ('low-fidelity process of co-kriging', lambda k, o: gp(k, o, False)), ('hierarchical kriging', hk), ('co-kriging', ck)):
            SCENARIOS.append(('%s, %s noise, %s' % (nm, kind, 'population optimizer' if opt else 'restarts'), f(kind, opt)))
ASSUMPTIONS = ['scipy.optimize.minimize returns a point within its bounds and the objective value there',
               'the population optimizers meet their contract (C22, C23)', 'the kernel meets its contract (KernelStub; RBF: C05)']
