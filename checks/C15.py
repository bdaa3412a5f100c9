"""C15  single-fidelity acquisition functions"""
from base import *

M = 'mfpml.optimization.sf_uncons_acqusitions'


class Surr(ModelStub):
    """contract of GaussianProcessRegression for its users (C07, C12 and scenario 'attributes')"""

    def __init__(self, v, d, name, ds, n, q=1):
        ModelStub.__init__(self, v, d, name=name, trained=True)
        self.bounds = ds
        self.design_space = ds
        self.num_dim = d
        self.sample_y = v.array(name + '_Y', n, 1)
        self.sample_x = v.array(name + '_X', n, d)

    def retrain(self):
        """the same object, trained again with other data"""
        self.trained += 1
        n = self.v.dim('n_%s%d' % (self.name, self.trained))
        self.sample_y = self.v.array('%s_Y%d' % (self.name, self.trained), n, 1)
        self.sample_x = self.v.array('%s_X%d' % (self.name, self.trained), n, self.d)


class OptStub:
    """any optimizer: returns a point of the box it is given"""

    def __init__(self, v):
        self.v, self.calls = v, []

    def run_optimizer(self, func, num_dim=None, design_space=None, args=(), **kw):
        x = self.v.array('optx%d' % len(self.calls), to_poly(num_dim))
        self.calls.append((func, num_dim, design_space, args, kw, x))
        return None, None, x


def cdf(x):
    return SNum(fnapp('Phi', to_poly(x)))


def pdf(x):
    return SNum(fnapp('phi', to_poly(x)))


def ei_spec(t, s):
    """expected improvement for the difference t and deviation s (1e-9 keeps the division defined)"""
    z = t / (s + fl('1e-9'))
    return t * cdf(z) + s * pdf(z)


def values(kind, kap, fmin):
    if kind == 'LCB':
        return lambda y, s: kap[0] * y - kap[1] * s
    if kind == 'EI':
        return lambda y, s: -ei_spec(fmin - y, s)
    return lambda y, s: -cdf((fmin - y) / (s + fl('1e-9')))


def make(v, kind, optimizer=None):
    R = setup(v)
    A_ = R.load(M)
    d, m, n = v.dim('d'), v.dim('m'), v.dim('n')
    ds = box(v, d)
    gp = Surr(v, d, 'gp', ds, n)
    kap = (v.real('k0'), v.real('k1'))
    kw = dict(kappa=vc.L(list(kap))) if kind == 'LCB' else {}
    acq = getattr(A_, kind)(optimizer=optimizer, **kw)
    return acq, gp, ds, d, m, n, values(kind, kap, np_().min(gp.sample_y))


def mk_used(kind):
    """the object was used with another model and with this one before it was trained again"""
    def s(v):
        acq, gp, ds, d, m, n, val = make(v, kind)
        d2 = v.dim('d2')
        other = Surr(v, d2, 'other', box(v, d2, 'other_ds'), v.dim('n2'))
        X = v.array('X', m, d)
        v.c.ghost['de'] = []
        acq.eval(v.array('X0', v.dim('m0'), d2), other)
        acq.eval(X, gp)
        acq.query(surrogate=gp)
        gp.retrain()
        val = values(kind, acq_kap(v, kind), np_().min(gp.sample_y))
        y, sd = gp.predict(X, return_std=True)
        v.ensure_eq('%s: value after the model was trained again' % kind, acq.eval(X, gp), spec((m, 1), lambda i, j: val(E(y, i, 0), E(sd, i, 0))))
        hooks = v.c.ghost['de'] = []
        x = acq.query(surrogate=gp)
        v.ensure('one search', And(len(hooks) == 1))
        opt, f, b_, fun, args = hooks[0]
        v.ensure_eq('search box = design space of the model', bounds_arr(b_), ds)
        v.ensure_eq('proposal = the minimiser found', x, opt)
        g = v.array('g', d)
        y, sd = gp.predict(A.reshape(g, (1, d)), return_std=True)
        v.ensure('objective of the search after the model was trained again', eqn(E(fun(g, *args), 0, 0), val(E(y, 0, 0), E(sd, 0, 0))))
    return s


def acq_kap(v, kind):
    return (v.real('k0'), v.real('k1'))


def mk_eval(kind):
    def s(v):
        acq, gp, ds, d, m, n, val = make(v, kind)
        X = v.array('X', m, d)
        y, sd = gp.predict(X, return_std=True)
        want = spec((m, 1), lambda i, j: val(E(y, i, 0), E(sd, i, 0)))
        got = acq.eval(X, gp)
        v.ensure_shape('%s: one value per point' % kind, got, (m, 1))
        v.ensure_eq('%s: value at every point' % kind, got, want)
        v.ensure_eq('%s: the same again' % kind, acq.eval(X, gp), want)
        if kind == 'PI':
            v.ensure_forall('PI: between -1 and 0', [m], lambda i: And(E(got, i, 0) <= 0, E(got, i, 0) >= -1))
        x = v.array('x', d)
        y, sd = gp.predict(A.reshape(x, (1, d)), return_std=True)
        got = acq.eval(x, gp)
        v.ensure_shape('%s: one point' % kind, got, (1, 1))
        v.ensure('%s: value at one point' % kind, eqn(E(got, 0, 0), val(E(y, 0, 0), E(sd, 0, 0))))
    return s


def mk_query(kind):
    def s(v):
        acq, gp, ds, d, m, n, val = make(v, kind)
        hooks = v.c.ghost['de'] = []
        x = acq.query(surrogate=gp)
        v.ensure('one search', And(len(hooks) == 1))
        opt, f, b_, fun, args = hooks[0]
        v.ensure_eq('search box = design space of the model', bounds_arr(b_), ds)
        v.ensure_eq('proposal = the minimiser found', x, opt)
        g = v.array('g', d)
        y, sd = gp.predict(A.reshape(g, (1, d)), return_std=True)
        v.ensure('objective of the search = the acquisition function', eqn(E(fun(g, *args), 0, 0), val(E(y, 0, 0), E(sd, 0, 0))))
    return s


def mk_user(kind):
    def s(v):
        o = OptStub(v)
        acq, gp, ds, d, m, n, val = make(v, kind, optimizer=o)
        x = acq.query(surrogate=gp)
        v.ensure('one call of the optimizer', And(len(o.calls) == 1))
        func, nd, space, args, kw, opt = o.calls[0]
        v.ensure_eq('user optimizer: box = design space', space, ds)
        v.ensure('user optimizer: dimension', eqn(nd, d))
        v.ensure_eq('user optimizer: proposal', x, opt)
        pop = v.array('pop', m, d)
        y, sd = gp.predict(pop, return_std=True)
        v.ensure_eq('user optimizer: objective = the acquisition function of the population', func(pop, *args),
                    spec((m, 1), lambda i, j: val(E(y, i, 0), E(sd, i, 0))))
    return s


def s_attr(v):
    """what the acquisition functions read from a trained Gaussian process"""
    G = setup(v).load('mfpml.models.gaussian_process')
    d, n = v.dim('d'), v.dim('n', 2)
    ds = box(v, d)
    X, Y = v.array('X', n, d), v.array('Y', n, 1)
    v.assume(np_().std(Y) > 0)
    gp = G.GaussianProcessRegression(design_space=ds, kernel=KernelStub(v, d), noise_prior=fl('0.0'), optimizer_restart=0)
    gp.train(X, Y)
    v.ensure_eq('GP: bounds = design space', gp.bounds, ds)
    v.ensure('GP: num_dim', eqn(gp.num_dim, d))
    v.ensure_eq('GP: sample_y = training responses', gp.sample_y, Y)
    y1 = v.array('y1', n)
    v.assume(np_().std(y1) > 0)
    gp.train(X, y1)
    v.ensure_eq('GP: responses given as a vector', gp.sample_y, spec((n, 1), lambda i, j: E(y1, i)))


SCENARIOS = [('%s value' % k, mk_eval(k)) for k in ('LCB', 'EI', 'PI')] + [('%s proposal' % k, mk_query(k)) for k in ('LCB', 'EI', 'PI')] \
    + [('%s proposal, user optimizer' % k, mk_user(k)) for k in ('LCB', 'EI', 'PI')] \
    + [('%s used before' % k, mk_used(k)) for k in ('LCB', 'EI', 'PI')] + [('attributes of the model', s_attr)]
ASSUMPTIONS = ['the surrogate meets its contract (C07, C12)', 'scipy differential_evolution returns a minimiser it found in the box',
               'the normal distribution functions are taken as given']
