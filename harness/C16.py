import numpy as np
from mfpml.optimization import sf_cons_acqusitions as S
from mfpml.optimization.evolutionary_algorithms import DE, PSO
from C15 import Phi, Rec, Stub, value
from ref import space

RULE = 'stub surrogates with random means and deviations (0 included), 1-5 constraints, batches of 1-30; non-trivial: 2+ constraints'
BOUND = 'd <= 4; constraints <= 5; batch <= 30, rarely <= 1199'


def setup(rng):
    d = rng.randint(1, 5)
    q = rng.randint(1, 6)
    ds = space(rng, d)
    obj = Stub(rng, d, ds)
    cons = [Stub(rng, d, ds) for _ in range(q)]
    return d, q, ds, obj, cons


def want(X, obj, cons):
    y, s = obj.predict(X, return_std=True)
    r = value('EI', None, y, s, np.min(obj.sample_y))
    for c in cons:
        g, t = c.predict(X, return_std=True)
        r = r * Phi((0 - g) / (t + 1e-9))
    return r, 1e-9 * (1 + np.abs(y).max() + np.abs(obj.sample_y).max())


def case(h, rng):
    d, q, ds, obj, cons = setup(rng)
    m = rng.randint(1, 31) if rng.rand() < .98 else rng.randint(200, 1200)
    X = ds[:, 0] + rng.rand(m, d) * (ds[:, 1] - ds[:, 0])
    w, tol = want(X, obj, cons)
    acq = S.CEI()
    if rng.rand() < .4:
        d2, q2, ds2, obj2, cons2 = setup(rng)
        acq.eval(obj2.sample_x, obj2, cons2)
        acq.eval(X, obj, cons)
        for s in [obj] + cons:
            s.train(rng)
        w, tol = want(X, obj, cons)
    got = acq.eval(X, obj, cons)
    h.check(np.shape(got) == (m, 1) and np.all(np.abs(got - w) <= tol), 'value at every point', got=got, want=w, q=q)
    i = rng.randint(m)
    w, tol = want(X[i:i + 1], obj, cons)
    for x in (X[i], X[i:i + 1]):
        got = acq.eval(x, obj, cons)
        h.check(np.size(got) == 1 and abs(np.ravel(got)[0] - w[0, 0]) <= tol, 'value at one point', got=got, want=w)
    h.nontrivial((d, q, m)) if q > 1 else None
    h.sample(d=d, q=q, m=m)


def user(h, rng):
    d, q, ds, obj, cons = setup(rng)
    o = Rec(rng, rng.randint(2, 20))
    acq = S.CEI(optimizer=o)
    if rng.rand() < .4:
        d2, q2, ds2, obj2, cons2 = setup(rng)
        acq.query(obj_surrogate=obj2, cons_surrogate=cons2)
        acq.query(obj_surrogate=obj, cons_surrogate=cons)
        for s in [obj] + cons:
            s.train(rng)
    x = acq.query(obj_surrogate=obj, cons_surrogate=cons)
    nd, b, X, y, bx = o.seen
    w, tol = want(X, obj, cons)
    h.check(nd == d and np.array_equal(b, ds), 'user optimizer: design space')
    h.check(y.shape == w.shape and np.all(np.abs(y - w) <= tol), 'user optimizer: values of the population', got=y, want=w)
    h.check(np.array_equal(np.ravel(x), bx), 'user optimizer: proposal', got=x, want=bx)
    h.nontrivial(('user', d, q))


def default(h, rng):
    d, q = rng.randint(1, 3), rng.randint(1, 3)
    ds = space(rng, d)
    obj, cons = Stub(rng, d, ds), [Stub(rng, d, ds) for _ in range(q)]
    g = ds[:, 0] + rng.rand(4000, d) * (ds[:, 1] - ds[:, 0])
    for s in [obj] + cons:
        s.zero = False
        s.floor = .3 * np.std(s.f(g)) + .05 * np.std(s.g(g))
    acq = S.CEI(optimizer=None if rng.rand() < .6 else PSO(num_pop=40, num_gen=60) if rng.rand() < .5 else DE(num_pop=40, num_gen=60))
    x = np.atleast_2d(acq.query(obj_surrogate=obj, cons_surrogate=cons))
    h.check(x.shape == (1, d) and np.all(x >= ds[:, 0]) and np.all(x <= ds[:, 1]), 'proposal within the design space', got=x, ds=ds)
    v = want(g, obj, cons)[0]
    top = v.min() + (2e-2 if acq.optimizer is None else .1) * (v.max() - v.min()) + 1e-6
    # the search is a heuristic: one of several proposals has to be good
    for _ in range(8):
        got = want(x, obj, cons)[0][0, 0]
        if got <= top:
            break
        x = np.atleast_2d(acq.query(obj_surrogate=obj, cons_surrogate=cons))
    h.check(got <= top, 'proposal minimises the acquisition function', got=got, best=v.min())
    h.nontrivial(('default', d, q))


CASES = [('values', case, 700, 10000), ('user optimizer', user, 150, 2000), ('proposal', default, 16, 200)]
