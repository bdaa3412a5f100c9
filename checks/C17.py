"""C17  multi-fidelity acquisition functions"""
from base import *
from C15 import cdf, pdf
import models as MO

M = 'mfpml.optimization.mf_acqusitions'


def stub_class(R):
    """contract of the multi-fidelity surrogates for their users (C08-C10, C12 and
    scenario 'attributes'); a subclass of HierarchicalKriging, which VFEI asks for"""
    HK = R.load(MO.HKM).HierarchicalKriging

    class MfStub(HK):
        def __init__(self, v, d, ds, n, nl):
            self.v, self.d = v, d
            self.bound = ds
            self.xh, self.xl = v.array('Xh', n, d), v.array('Xl', nl, d)
            self.hi = ModelStub(v, d, name='hi', trained=True)
            self.lo = ModelStub(v, d, name='lo', trained=True)
            self.beta = v.array('beta', 1, 1)
            self.gen = ''

        def retrain(self):
            v, k = self.v, self.hi.trained + 1
            self.hi.trained = self.lo.trained = k
            self.gen = str(k)
            self.xh, self.xl = v.array('Xh%d' % k, v.dim('n_%d' % k), self.d), v.array('Xl%d' % k, v.dim('nl_%d' % k), self.d)
            self.beta = v.array('beta%d' % k, 1, 1)

        def predict(self, X, return_std=False):
            return self.hi.predict(X, return_std)

        def predict_lf(self, X, return_std=False):
            return self.lo.predict(X, return_std)

        _get_sample_hf = property(lambda self: self.xh)
        _get_sample_lf = property(lambda self: self.xl)
        sample_xh = property(lambda self: self.xh)
        sample_xl = property(lambda self: self.xl)

        def _eval_corr(self, X, Xprime, fidelity=0):
            X, Y = A.atleast_2d(asarr(X)), A.atleast_2d(asarr(Xprime))
            f, g, d = X.nsnap(), Y.nsnap(), to_poly(self.d)
            return newarr(lambda i: app('corr' + self.gen, [N.vlam(lambda j: f((i[0], j[0])), d), N.vlam(lambda j: g((i[1], j[0])), d),
                                                 to_poly(fidelity)]), (X._shape[0], Y._shape[0]), tag='num')
    return MfStub


EPS = None


def ite(c, a, b_):
    return SNum(ITE(to_bool(c), to_poly(a), to_poly(b_)))


class Case:
    def __init__(self, v, kind, real_hk=True):
        self.v, self.kind = v, kind
        R = self.R = setup(v)
        self.mod = R.load(M)
        d, m, n, nl = self.d, self.m, self.n, self.nl = v.dim('d'), v.dim('m'), v.dim('n'), v.dim('nl')
        ds = self.ds = box(v, d)
        self.s = stub_class(R)(v, d, ds, n, nl)
        self.cr, self.fmin = v.real('cr'), v.real('fmin')
        self.kap = (v.real('k0'), v.real('k1'))
        kw = dict(kappa=vc.L(list(self.kap))) if kind == 'VFLCB' else {}
        self.acq = getattr(self.mod, kind)(**kw)
        self.eps = N.finfo(float).eps

    def args(self, fid, fmin=None):
        s, c, f = self.s, self.cr, self.fmin if fmin is None else fmin
        return {'AugmentedEI': (s, c, fid), 'VFEI': (f, s, fid), 'VFLCB': (s, c, fid), 'ExtendedPI': (s, f, c, fid)}[self.kind]

    def value(self, X, fid, fmin=None):
        """i -> value at row i of X"""
        s, k = self.s, self.kind
        self.n, self.nl = (SNum(to_poly(t.shape[0])) for t in (s.xh, s.xl))
        fmin = self.fmin if fmin is None else fmin
        y, sd = s.predict(X, return_std=True)
        yl, sl = s.predict_lf(X, return_std=True)
        np = np_()
        if k == 'VFLCB':
            return lambda i: self.kap[0] * E(y, i, 0) - self.kap[1] * (E(sd, i, 0) if fid == 0 else E(sl, i, 0) * self.cr)
        if k == 'VFEI':
            def at(i):
                q = E(sd, i, 0) if fid == 0 else absv(E(s.beta, 0, 0)) * E(sl, i, 0)
                t = fmin - E(y, i, 0)
                z = t / (q + fl('1e-8'))
                return ite(q < self.eps, 0, -(t * cdf(z) + q * pdf(z)))
            return at
        corr = lambda i: num(1) if fid == 0 else E(sl, i, 0) / (absv(E(y, i, 0) - E(yl, i, 0)) + E(sd, i, 0))
        ratio = num(1) if fid == 0 else self.cr
        if k == 'AugmentedEI':
            allx = np.concatenate((s.xh, s.xl), axis=0)
            a, b_ = s.predict(allx, return_std=True)
            best = np.argmin(spec((self.n + self.nl,), lambda i: E(a, i, 0) + E(b_, i, 0)))
            fm = E(a, best, 0)

            def at(i):
                t = fm - E(y, i, 0)
                z = t / E(sd, i, 0)
                return ite(E(sd, i, 0) < self.eps, 0, -(t * cdf(z) + E(sd, i, 0) * pdf(z)) * corr(i) * ratio)
            return at
        S, ns = (s.xh, self.n) if fid == 0 else (s.xl, self.nl)
        R = s._eval_corr(X, S, fid)

        def at(i):
            z = (fmin - E(y, i, 0)) / E(sd, i, 0)
            return ite(E(sd, i, 0) < self.eps, 0, -cdf(z) * corr(i) * ratio * Prod(ns, lambda j: 1 - E(R, i, j)))
        return at


def mk_eval(kind, fid):
    def s(v):
        c = Case(v, kind)
        X = v.array('X', c.m, c.d)
        want = c.value(X, fid)
        got = c.acq.eval(X, *c.args(fid))
        v.ensure_shape('one value per point', got, (c.m,))
        v.ensure_forall('value at every point', [c.m], lambda i: eqn(E(got, i), want(i)))
        v.ensure_eq('the same again', c.acq.eval(X, *c.args(fid)), got)
        x = v.array('x', c.d)
        want = c.value(A.reshape(x, (1, c.d)), fid)
        got = c.acq.eval(x, *c.args(fid))
        v.ensure_shape('one point', got, (1,))
        v.ensure('value at one point', eqn(E(got, 0), want(num(0))))
    return s


def mk_used(kind, fid):
    """the object was used with other values, another model, and with this one before it was trained again"""
    def s(v):
        c = Case(v, kind)
        d2 = v.dim('d2')
        other = type(c.s)(v, d2, box(v, d2, 'other_ds'), v.dim('n2'), v.dim('nl2'))
        X = v.array('X', c.m, c.d)
        v.c.ghost['de'] = []
        me, c.s = c.s, other
        c.acq.eval(v.array('X0', v.dim('m0'), d2), *c.args(fid))
        c.s = me
        cr, fmin = c.cr, c.fmin
        for f in (0, 1):
            c.acq.eval(X, *c.args(f))
        c.cr, c.fmin = v.real('cr2'), v.real('fmin2')
        c.acq.eval(X, *c.args(fid))
        c.s.retrain()
        want = c.value(X, fid)
        got = c.acq.eval(X, *c.args(fid))
        v.ensure_shape('one value per point', got, (c.m,))
        v.ensure_forall('value after the model was trained again', [c.m], lambda i: eqn(E(got, i), want(i)))
        c.cr, c.fmin = cr, fmin
        want = c.value(X, fid)
        got = c.acq.eval(X, *c.args(fid))
        v.ensure_forall('value with another cost ratio and best value', [c.m], lambda i: eqn(E(got, i), want(i)))
    return s


def mk_requery(kind):
    def s(v):
        c = Case(v, kind)
        v.c.ghost['de'] = []
        c.acq.query(mf_surrogate=c.s, cost_ratio=c.cr, fmin=c.fmin)
        c.s.retrain()
        c.cr, c.fmin = v.real('cr2'), v.real('fmin2')
        proposal(v, c, kind)
    return s


def mk_refuse(kind):
    def s(v):
        c = Case(v, kind)
        X = v.array('X', c.m, c.d)
        for bad in (2, -1, 3):
            try:
                c.acq.eval(X, *c.args(bad))
                v.fail('fidelity %d is refused' % bad, 'no exception')
            except ValueError:
                v.ok('fidelity %d is refused' % bad)
            except TypeError:
                v.fail('fidelity %d is refused' % bad, 'TypeError')
        if kind == 'VFEI':
            try:
                c.acq.eval(X, c.fmin, ModelStub(v, c.d, trained=True), 0)
                v.fail('other models are refused', 'no exception')
            except ValueError:
                v.ok('other models are refused')
    return s


def mk_query(kind):
    def s(v):
        proposal(v, Case(v, kind), kind)
    return s


def proposal(v, c, kind):
    hooks = v.c.ghost['de'] = []
    x, fid = c.acq.query(mf_surrogate=c.s, cost_ratio=c.cr, fmin=c.fmin)
    v.ensure('number of searches', And(len(hooks) == (3 if kind == 'ExtendedPI' else 2)))
    fm = None
    g = v.array('g', c.d)
    row = A.reshape(g, (1, c.d))
    for h in hooks:
        v.ensure_eq('search box = design space', bounds_arr(h[2]), c.ds)
    if kind == 'ExtendedPI':
        h = hooks.pop(0)
        fm = SNum(h[1])
        v.ensure('first search: the lowest predicted mean', eqn(E(h[3](g, *h[4]), 0, 0), E(c.s.predict(row), 0, 0)))
    for f, h in enumerate(hooks):
        want = c.value(row, f, fm)
        v.ensure('objective for fidelity %d' % f, eqn(E(h[3](g, *h[4]), 0), want(num(0))))
    f0, f1 = SNum(hooks[0][1]), SNum(hooks[1][1])
    v.ensure_shape('proposal is one row', x, (1, c.d))
    v.ensure('fidelity with the lower minimum, high on ties', Or(And(f0 <= f1, eqn(fid, 0)), And(f1 < f0, eqn(fid, 1))))
    h = hooks[0] if to_poly(fid).const() == 0 else hooks[1]
    v.ensure_forall('proposal = minimiser of that fidelity', [c.d], lambda j: eqn(E(x, 0, j), E(h[0], j)))


def mk_attr(kind):
    """what the acquisition functions read from a trained multi-fidelity model"""
    def s(v):
        e = MO.Env(v)
        m = e.model(kind, fl('0.0'), optimizer_restart=0)
        (Xh, Xl), (Yh, Yl) = D = e.data(kind)
        m.train(*D)
        v.ensure_eq('bound = design space', m.bound, e.ds)
        v.ensure_eq('high-fidelity samples', m._get_sample_hf, Xh)
        v.ensure_eq('low-fidelity samples', m._get_sample_lf, Xl)
        v.ensure('counts', And(eqn(m._num_xh, e.n), eqn(m._num_xl, e.nl)))
        P_, Q = v.array('P', e.m, e.d), v.array('Q', e.nl, e.d)
        if kind == 'ck':
            return
        for f, k in ((0, m.kernel), (1, m.lfGP.kernel)):
            v.ensure_eq('correlation, fidelity %d' % f, m._eval_corr(P_, Q, fidelity=f),
                        k.get_kernel_matrix(scaled(P_, e.ds), scaled(Q, e.ds)))
        try:
            m._eval_corr(P_, Q, fidelity=2)
            v.fail('correlation: other fidelities are refused', 'no exception')
        except ValueError:
            v.ok('correlation: other fidelities are refused')
    return s


KINDS = ('AugmentedEI', 'VFEI', 'VFLCB', 'ExtendedPI')
SCENARIOS = [('%s fidelity %d' % (k, f), mk_eval(k, f)) for k in KINDS for f in (0, 1)]
SCENARIOS += [('%s refuses' % k, mk_refuse(k)) for k in KINDS] + [('%s proposal' % k, mk_query(k)) for k in KINDS]
SCENARIOS += [('attributes of %s' % k, mk_attr(k)) for k in ('hk', 'sk', 'ck')]
SCENARIOS += [('%s fidelity %d, used before' % (k, f), mk_used(k, f)) for k in KINDS for f in (0, 1)]
SCENARIOS += [('%s proposal, used before' % k, mk_requery(k)) for k in KINDS]
ASSUMPTIONS = ['the surrogate meets its contract (C08-C10, C12)', 'scipy differential_evolution returns a minimiser it found in the box',
               'optimizer is None (the classes have no other case)', 'the normal distribution functions are taken as given']
