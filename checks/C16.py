"""C16  constrained expected improvement"""
from base import *
from C15 import Surr, OptStub, cdf, ei_spec

M = 'mfpml.optimization.sf_cons_acqusitions'


class ConStub(Surr):
    """the k-th constraint model of a list of any length"""

    def __init__(self, v, d, k, ds, n, gen=(1,)):
        self.k, self.v, self.d, self.name, self.trained = k, v, d, 'con', gen[0]
        self.bounds = self.design_space = ds
        self.num_dim = d

    def sym(self, what, args):
        return app('con%d_%s' % (self.trained, what), [self.k] + args)


def make(v, q, optimizer=None):
    R = setup(v)
    A_ = R.load(M)
    d, m, n = v.dim('d'), v.dim('m'), v.dim('n')
    ds = box(v, d)
    obj = Surr(v, d, 'obj', ds, n)
    if q is None:
        q = v.dim('q')
        gen = [1]
        cons = vc.SRange(ZERO, q.p, fn=lambda k: ConStub(v, d, k, ds, n, gen))
        cons.gen = gen
    else:
        cons = vc.L([Surr(v, d, 'con%d' % k, ds, n) for k in range(q)])

    def val(X):
        """the value at the rows of X, from the predictions there"""
        fmin = np_().min(obj.sample_y)
        y, s = obj.predict(X, return_std=True)
        if isinstance(cons, vc.SRange):
            def pof(i):
                def one(k):
                    g, t = cons.item(k.p).predict(X, return_std=True)
                    return cdf((0 - E(g, i, 0)) / (E(t, i, 0) + fl('1e-9')))
                return Prod(q, one)
            return lambda i: -ei_spec(fmin - E(y, i, 0), E(s, i, 0)) * pof(i)
        gs = [c.predict(X, return_std=True) for c in cons]

        def at(i):
            r = -ei_spec(fmin - E(y, i, 0), E(s, i, 0))
            for gm, gs_ in gs:
                r = r * cdf((0 - E(gm, i, 0)) / (E(gs_, i, 0) + fl('1e-9')))
            return r
        return at
    return A_.CEI(optimizer=optimizer), obj, cons, ds, d, m, n, val


def mk_used(q):
    """the object was used with other models, and with these before they were trained again"""
    def s(v):
        acq, obj, cons, ds, d, m, n, val = make(v, q)
        d2, n2 = v.dim('d2'), v.dim('n2')
        ds2 = box(v, d2, 'other_ds')
        others = [Surr(v, d2, 'other%d' % k, ds2, n2) for k in range(3)]
        X = v.array('X', m, d)
        v.c.ghost['de'] = []
        acq.eval(v.array('X0', v.dim('m0'), d2), others[0], vc.L(others[1:]))
        acq.eval(X, obj, cons)
        acq.query(obj_surrogate=obj, cons_surrogate=cons)
        obj.retrain()
        if q is None:
            cons.gen[0] += 1
        else:
            for c in cons:
                c.retrain()
        want = val(X)
        v.ensure_eq('value after the models were trained again', acq.eval(X, obj, cons), spec((m, 1), lambda i, j: want(i)))
        hooks = v.c.ghost['de'] = []
        x = acq.query(obj_surrogate=obj, cons_surrogate=cons)
        v.ensure('one search', And(len(hooks) == 1))
        opt, f, b_, fun, args = hooks[0]
        v.ensure_eq('box = design space', bounds_arr(b_), ds)
        v.ensure_eq('proposal = the minimiser found', x, opt)
        g = v.array('g', m, d)
        want = val(g)
        v.ensure_eq('objective of the search after the models were trained again', fun(g, *args), spec((m, 1), lambda i, j: want(i)))
    return s


def mk_eval(q):
    def s(v):
        acq, obj, cons, ds, d, m, n, val = make(v, q)
        X = v.array('X', m, d)
        want = val(X)
        got = acq.eval(X, obj, cons)
        v.ensure_shape('one value per point', got, (m, 1))
        v.ensure_eq('EI times the feasibility probabilities, at every point', got, spec((m, 1), lambda i, j: want(i)))
        v.ensure_eq('the same again', acq.eval(X, obj, cons), spec((m, 1), lambda i, j: want(i)))
        x = v.array('x', d)
        want = val(A.reshape(x, (1, d)))
        got = acq.eval(x, obj, cons)
        v.ensure_shape('one point', got, (1, 1))
        v.ensure('value at one point', eqn(E(got, 0, 0), want(num(0))))
    return s


def mk_query(q, user=False):
    def s(v):
        o = OptStub(v) if user else None
        acq, obj, cons, ds, d, m, n, val = make(v, q, o)
        hooks = v.c.ghost['de'] = []
        x = acq.query(obj_surrogate=obj, cons_surrogate=cons)
        if user:
            v.ensure('one call of the optimizer', And(len(o.calls) == 1))
            fun, nd, b_, args, kw, opt = o.calls[0]
            v.ensure('dimension', eqn(nd, d))
            v.ensure_eq('box = design space', b_, ds)
        else:
            v.ensure('one search', And(len(hooks) == 1))
            opt, f, b_, fun, args = hooks[0]
            v.ensure_eq('box = design space', bounds_arr(b_), ds)
        v.ensure_eq('proposal = the minimiser found', x, opt)
        g = v.array('g', m, d)
        want = val(g)
        v.ensure_eq('objective of the search = the acquisition function', fun(g, *args), spec((m, 1), lambda i, j: want(i)))
        g = v.array('g1', d)
        want = val(A.reshape(g, (1, d)))
        v.ensure('objective at one point', eqn(E(fun(g, *args), 0, 0), want(num(0))))
    return s


SCENARIOS = [('value, any number of constraints', mk_eval(None)), ('proposal, any number of constraints', mk_query(None)),
             ('proposal, user optimizer, any number of constraints', mk_query(None, True))]
SCENARIOS += [('value, %d constraints' % q, mk_eval(q)) for q in (1, 2, 3)] + \
    [('proposal, %d constraints' % q, mk_query(q)) for q in (1, 2)] + [('proposal, user optimizer, %d constraints' % q, mk_query(q, True)) for
                                                                      q in (1, 2)]
SCENARIOS += [('used before, %s constraints' % ('any number of' if q is None else q), mk_used(q)) for q in (None, 2)]
ASSUMPTIONS = ['the surrogates meet their contract (C07, C12)', 'scipy differential_evolution returns a minimiser it found in the box',
               'the normal distribution functions are taken as given']
