import copy
import importlib
import numpy as np
import bo
import ea
import C15
import C16
import C17
from fmath import F, points
from mfpml.design_of_experiment import mf_samplers as MS
from mfpml.design_of_experiment import sf_samplers as SS
from mfpml.models.kernels import RBF
from ref import pts, space
from ref2 import GP, mfdata, model, noise_of

RULE = ('samplers, surrogates (trained once or twice), acquisition functions, optimizers, test problems and optimization loops on random '
        'arguments (arrays, lists, views, read from the same array twice); non-trivial: more than one argument array')
BOUND = 'd <= 4; n <= 30'


class Args:
    def __init__(self, h, what, *args):
        self.h, self.what, self.args = h, what, args
        self.old = copy.deepcopy(args)

    def arrays(self, x=None):
        x = self.args if x is None else x
        if isinstance(x, np.ndarray):
            return [x]
        return [a for y in x for a in self.arrays(y)] if isinstance(x, (list, tuple)) else []

    def same(self, a, b):
        if isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
        if isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        if isinstance(b, dict):
            return a.keys() == b.keys() and all(self.same(a[k], b[k]) for k in b)
        return a is b or bool(a == b)

    def unchanged(self, step=''):
        for a, b in zip(self.args, self.old):
            self.h.check(self.same(a, b), '%s: arguments as before%s' % (self.what, step), got=a, was=b)

    def apart(self, res, step=''):
        """no array of the result shares memory with an argument"""
        for r in self.arrays(list(res) if isinstance(res, (list, tuple)) else [res]):
            self.h.check(not any(np.shares_memory(r, a) for a in self.arrays()), '%s: result shares no memory with the arguments%s' % (self.what, step))


def sampler(h, rng):
    d, n = rng.randint(1, 5), int(rng.randint(1, 20))
    ds = space(rng, d)
    ds = ds.tolist() if rng.rand() < .3 else ds
    c = ('LatinHyperCube', 'RandomSampler', 'SobolSequence', 'FixNumberSampler')[rng.randint(4)]
    w = Args(h, c, ds)
    g = getattr(SS, c)(design_space=ds)
    for _ in range(2):
        r = g.get_samples(num_samples=n, seed=int(rng.randint(1000)))
        w.unchanged()
        w.apart(r)
        r[...] = -1.
        w.unchanged(' (result overwritten)')


def mfsampler(h, rng):
    d, k = rng.randint(1, 4), rng.randint(2, 5)
    nested = rng.rand() < .5
    ns = sorted(int(q) for q in rng.randint(1, 20, k))
    if nested or rng.rand() < .5:
        ds, kw = space(rng, d), dict(num_fidelity=k)
    else:
        ds, kw = [space(rng, d) for _ in range(k)], {}
    c = ('MFLatinHyperCube', 'MFSobolSequence')[rng.randint(2)]
    w = Args(h, c, ds, ns)
    g = getattr(MS, c)(design_space=ds, nested=bool(nested), **kw)
    h.nontrivial((c, d, k, nested))
    for _ in range(2):
        r = g.get_samples(num_samples=ns, seed=int(rng.randint(1000)))
        w.unchanged()
        w.apart(list(r))


def surrogate(h, rng):
    kind = ('gp', 'hk', 'sk', 'ck')[rng.randint(4)]
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    noise = noise_of(rng, Yh)
    X, Y = (Xh, Yh) if kind == 'gp' else ([Xh, Xl], [Yh, Yl])
    Xn = pts(rng, ds, rng.randint(1, 6))
    if rng.rand() < .3:
        Xn = Xh                      # predict at the training array itself
    w = Args(h, kind, ds, X, Y, Xn)
    m = model(kind, rng, ds, noise)
    w.unchanged(' (made)')
    for _ in range(rng.randint(1, 3)):
        m.train(X, Y)
        w.unchanged(' (train)')
    h.nontrivial((kind, len(Xh), noise))
    h.sample(kind=kind, n=len(Xh), noise=noise)

    def got():
        r = [m.predict(Xn)] + list(m.predict(Xn, return_std=True))
        if kind != 'gp':
            r += [m.predict_lf(Xn)] + list(m.predict_lf(Xn, return_std=True))
        return r
    one = got()
    w.unchanged(' (predict)')
    w.apart(one, ' (predict)')
    if kind == 'gp' and Xn is not Xh:
        one = [r.copy() for r in one]
        how = rng.randint(3)
        if how != 1:
            Xh[...] = Xh[rng.permutation(len(Xh))] if rng.rand() < .5 else pts(rng, ds, len(Xh))
        if how != 0:
            Yh[...] = rng.randn(*Yh.shape) * 5 + 3
        for a, b in zip(got(), one):
            h.check(np.array_equal(a, b), 'gp: predictions after the training arrays were overwritten', got=a, was=b, Xh=Xh, Yh=Yh)


def kernel(h, rng):
    d = rng.randint(1, 5)
    A, B, th = rng.randn(rng.randint(1, 6), d), rng.randn(rng.randint(1, 6), d), rng.uniform(-1, 1, d)
    bd = [-2., 3.]
    w = Args(h, 'kernel', A, B, th, bd)
    k = RBF(theta=th, bounds=bd)
    r = [k(A, B, th), k.get_kernel_matrix(A, B), k.get_kernel_matrix(A, A)]
    k.set_params(th)
    w.unchanged()
    w.apart(r)


def acquisition(h, rng):
    which = rng.randint(3)
    if which == 0:
        d = rng.randint(1, 4)
        s = C15.Stub(rng, d)
        kind = ('LCB', 'EI', 'PI')[rng.randint(3)]
        a, X = C15.mk(rng, kind), pts(rng, s.bounds, rng.randint(1, 9))
        w = Args(h, kind, X, s.sample_x, s.sample_y, s.bounds)
        r = (a[0] if isinstance(a, tuple) else a).eval(X, s)
    elif which == 1:
        d, n = rng.randint(1, 4), rng.randint(2, 9)
        ss = [C15.Stub(rng, d) for _ in range(rng.randint(2, 5))]
        X = pts(rng, ss[0].bounds, rng.randint(1, 9))
        for s in ss[1:]:
            s.sample_x, s.bounds = ss[0].sample_x, ss[0].bounds
            s.sample_y = rng.randn(len(ss[0].sample_y), 1)
        cons = ss[1:]
        w = Args(h, 'CEI', X, [s.sample_x for s in ss], [s.sample_y for s in ss], ss[0].bounds)
        names = list(cons)
        K = importlib.import_module('mfpml.optimization.sf_cons_acqusitions').CEI
        r = K().eval(X, ss[0], cons)
        h.check(len(cons) == len(names) and all(p is q for p, q in zip(cons, names)), 'CEI: list of surrogates as before')
    else:
        s = C17.Stub(rng, rng.randint(1, 4))
        kind = C17.KINDS[rng.randint(4)]
        a = C17.mk(rng, kind)
        a = a[0] if isinstance(a, tuple) else a
        X = pts(rng, s.bound, rng.randint(1, 9))
        w = Args(h, kind, X, s.sample_xh, s.sample_xl, s.bound, s.beta, s.w)
        r = C17.call(kind, a, s, X, rng.randint(2), rng.uniform(1, 9), rng.randn())
    w.unchanged(' (eval)')
    w.apart(r, ' (eval)')


def optimizer(h, rng):
    o, f, d, n, g, box, stop, nm = ea.build(rng)
    extra = (rng.randn(3), [1, 2.5], 'a')
    w = Args(h, nm, box, extra)
    r = ea.run(rng, o, f, d, box, stop, extra)
    w.unchanged()
    h.check(all(len(a) == 3 and all(p is q for p, q in zip(a, extra)) for a in f.args), '%s: extra arguments handed on' % nm)
    w.apart([x for k, x in r[0].items() if isinstance(x, np.ndarray) and k != 'design_space'])


def problem(h, rng):
    single = rng.rand() < .5
    T = F.SINGLE if single else F.MULTI
    c = sorted(T)[rng.randint(len(T))]
    mod, d, ms = T[c]
    o = getattr(importlib.import_module(mod), c)()
    X = points(rng, F.BOX[c], rng.randint(1, 9))
    X = X.astype(float)
    w = Args(h, c, X)
    for m in ms:
        r = getattr(o, m)(X)
        w.unchanged(' (%s)' % m)
        w.apart(r, ' (%s)' % m)
    if not single:
        Z = [X, points(rng, F.BOX[c], rng.randint(1, 9)).astype(float)]
        w = Args(h, c, Z)
        r = o(Z)
        w.unchanged(' (call)')
        w.apart(r, ' (call)')


def scalable(h, rng):
    d = rng.randint(1, 6)
    c = ('Ackley', 'Thevenot')[rng.randint(2)]
    o = getattr(importlib.import_module(F.SF), c)(d)
    X = rng.uniform(-3, 3, (rng.randint(1, 9), d))
    w = Args(h, c, X)
    r = o.f(X)
    w.unchanged()
    w.apart(r)


def loop(h, rng):
    """the optimization loops on the problem, the acquisition and their lists"""
    d = rng.randint(1, 4)
    if rng.rand() < .5:
        M_ = importlib.import_module('mfpml.optimization.sf_uncons_bo')
        p = bo.Problem(rng, d, None)
        n0 = int(rng.randint(2, 6))
        acq = bo.Acq(rng, p.input_domain, rng.rand() < .5)
        w = Args(h, 'single-fidelity loop', p.input_domain)
        with bo.recorded([bo.G.GaussianProcessRegression], True):
            o = M_.BayesUnConsOpt(problem=p, acquisition=acq, num_init=n0, seed=3)
            o.run_optimizer(max_iter=3, stopping_error=0.)
        w.unchanged()
    else:
        M_ = importlib.import_module('mfpml.optimization.mf_uncons_bo')
        p = bo.MFProblem(rng, d)
        acq = bo.Acq(rng, p.input_domain, rng.rand() < .5, fid=lambda r: r.randint(2))
        ni = [int(rng.randint(2, 4)), int(rng.randint(4, 8))]
        w = Args(h, 'multi-fidelity loop', p.input_domain, ni)
        G = importlib.import_module('mfpml.models.hierarchical_kriging')
        with bo.recorded([G.HierarchicalKriging], True):
            o = M_.mfUnConsBayesOpt(problem=p, acquisition=acq, num_init=ni, surrogate_name='HierarchicalKriging', seed=3)
            o.run_optimizer(max_iter=3, stopping_error=0.)
        w.unchanged()


def trained(h, rng):
    """acquisition functions of real models"""
    kind = ('gp', 'hk', 'sk', 'ck')[rng.randint(4)]
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    X, Y = (Xh, Yh) if kind == 'gp' else ([Xh, Xl], [Yh, Yl])
    m = model(kind, rng, ds, noise_of(rng, Yh))
    P = pts(rng, ds, rng.randint(1, 6)) if rng.rand() < .8 else Xh
    w = Args(h, kind, ds, X, Y, P)
    m.train(X, Y)
    r = []
    if kind == 'gp':
        for k in ('LCB', 'EI', 'PI'):
            a = C15.mk(rng, k)
            r.append((a[0] if isinstance(a, tuple) else a).eval(P, m))
            w.unchanged(' (%s)' % k)
    else:
        for k in C17.KINDS[::1 if kind == 'hk' else 2]:
            a = C17.mk(rng, k)
            for q in (0, 1):
                r.append(C17.call(k, a[0] if isinstance(a, tuple) else a, m, P, q, rng.uniform(1, 9), rng.randn()))
                w.unchanged(' (%s)' % k)
        r.append(m.normalize_input(P))
        if kind != 'ck':
            for q in (0, 1):
                r += [m._eval_corr(P, X[q], q), m._eval_corr(X[0], X[1], q)]
                w.unchanged(' (correlation)')
    w.apart(r, ' (trained)')
    h.nontrivial((kind, 'trained', len(Xh)))


CASES = [('trained', trained, 120, 1200), ('samplers', sampler, 200, 2000), ('multi-fidelity samplers', mfsampler, 150, 1500), ('surrogates', surrogate, 250, 2500),
         ('kernel', kernel, 60, 600), ('acquisition functions', acquisition, 200, 2000), ('optimizers', optimizer, 100, 1000),
         ('test problems', problem, 300, 3000), ('scalable test problems', scalable, 60, 600), ('loops', loop, 60, 600)]
