import importlib
import numpy as np
from fmath import F, points

RULE = 'every problem that declares an optimum: the declared location on the real code and a search for lower values (random designs, corners, faces, pattern search); Ackley and Thevenot in 1..6 dimensions; non-trivial: a search with local descent'
BOUND = 'search: at most 4000 evaluations per case'
ATTAIN = {'Sixhump': 5e-5, 'mf_Sixhump': 5e-5, 'Sasena': 5e-5, 'Hartman3': 2e-4, 'mf_Hartman3': 2e-4, 'Branin_1': 2e-4,
          'Branin_2': 2e-3}
BEAT = {'Sixhump': 5e-5, 'mf_Sixhump': 5e-5, 'Sasena': 5e-5, 'Branin_1': 1e-4, 'Branin_2': 1e-3}
NO = ('mf_Discontinuous', 'ContinuousNonlinearCorrelation1D', 'PhaseShiftedOscillations', 'mf_Borehole', 'mf_CurrinExp',
      'mf_Himmelblau', 'mf_Park91A', 'mf_Park91B')
CONS = ('Branin_1', 'Branin_2')
FIXED = [c for c in list(F.SINGLE) + list(F.MULTI) if c not in NO]


def make(c, d=None):
    mod = (F.SINGLE.get(c) or F.MULTI.get(c) or (F.SF,))[0]
    K = getattr(importlib.import_module(mod), c)
    return K() if d is None else K(d)


def fun(c):
    return 'hf' if c in F.MULTI else 'f'


def scheme(h, c, o, lo, hi):
    s = np.atleast_2d(np.asarray(o.optimum_scheme, dtype=float))
    d = len(lo)
    h.check(s.ndim == 2 and s.shape[1] == d, '%s: one coordinate per dimension' % c, scheme=s)
    f = getattr(o, fun(c))
    for x in s:
        h.check(np.all(x >= lo) and np.all(x <= hi), '%s: the location lies in the domain' % c, x=x)
        y = float(np.ravel(f(x.reshape(1, -1)))[0])
        h.check(abs(y - float(o.optimum)) <= ATTAIN.get(c, 1e-6), '%s: the location has the declared value' % c, x=x, y=y, optimum=o.optimum)
        if c in CONS:
            g = np.ravel(o.f_cons(x.reshape(1, -1)))
            h.check(np.all(g <= 0), '%s: the location is feasible' % c, x=x, g=g)
    return s


def search(h, rng, c, o, starts, steps=25, finding=None):
    dom = np.array(o.input_domain, dtype=float)
    lo, hi = dom[:, 0], dom[:, 1]
    d = len(lo)
    f = getattr(o, fun(c))
    cons = o.f_cons if c in CONS else None

    def val(X):
        y = np.array(np.ravel(f(X)), dtype=float)
        if cons is not None:
            y[np.any(np.asarray(cons(X)).reshape(len(X), -1) > 0, axis=1)] = np.inf
        return y
    lim = float(o.optimum) - BEAT.get(c, 1e-6)
    X = np.vstack([starts, points(rng, list(zip(lo, hi)), 60)])
    y = val(X)
    known = lambda x: finding is not None and finding(x)
    for k in np.argsort(y)[:4]:
        x, v = X[k].copy(), y[k]
        r = .1 * (hi - lo)
        for _ in range(steps):
            Z = np.clip(x + r * np.vstack([np.eye(d), -np.eye(d), rng.uniform(-1, 1, (8, d))]), lo, hi)
            z = val(Z)
            b = np.argmin(z)
            if z[b] < v:
                x, v = Z[b].copy(), z[b]
            else:
                r = r * .4
        if v < lim:
            h.check(False, '%s: no point of the domain is below the declared optimum' % c,
                    finding='thevenot_periodic' if known(x) else None, x=x, y=v, optimum=o.optimum)
    h.checks += 4
    h.nontrivial((c, d))


def fixed(h, rng):
    c = FIXED[rng.randint(len(FIXED))]
    o = make(c)
    dom = np.array(o.input_domain, dtype=float)
    s = scheme(h, c, o, dom[:, 0], dom[:, 1])
    h.sample(problem=c, optimum=o.optimum, scheme=s)
    near = np.clip(s + .05 * (dom[:, 1] - dom[:, 0]) * rng.uniform(-1, 1, s.shape), dom[:, 0], dom[:, 1])
    search(h, rng, c, o, near)


def scalable(h, rng):
    c = ('Ackley', 'Thevenot')[rng.randint(2)]
    d = rng.randint(1, 7)
    o = make(c, d)
    dom = np.array(o.input_domain, dtype=float)
    h.check(dom.shape == (d, 2), '%s: one interval per dimension' % c, d=d, domain=dom)
    s = scheme(h, c, o, dom[:, 0], dom[:, 1])
    T = np.array([x for x in _peri(rng, d)])
    lattice = c == 'Thevenot' and d > 1

    def periodic(x):
        """the neighbourhoods (all coordinates near multiples of 2 pi, not all 0) of the recorded finding"""
        k = x / (2 * np.pi)
        return lattice and np.all(np.abs(k - np.round(k)) < .1) and np.any(np.round(k) != 0)
    search(h, rng, c, o, np.vstack([s, T]), finding=periodic)


def _peri(rng, d):
    out = []
    for _ in range(4):
        x = np.where(rng.rand(d) < .6, 2 * np.pi * rng.choice([-1, 1], d), 0.)
        out.append(x)
    return np.clip(out, -10, 10)


def finding(h, rng):
    """the recorded finding: (0, 2 pi, ..., 2 pi) is below the declared optimum of Thevenot(d >= 2)"""
    for d in (2, 3):
        o = make('Thevenot', d)
        x = np.full(d, 2 * np.pi)
        x[rng.randint(d)] = 0
        y = float(np.ravel(o.f(x.reshape(1, -1)))[0])
        h.check(y >= float(o.optimum) - 1e-6, 'Thevenot: no point of the domain is below the declared optimum',
                finding='thevenot_periodic', x=x, y=y, optimum=o.optimum)


def params(h, rng):
    """Ackley with its own parameters"""
    K = getattr(importlib.import_module(F.SF), 'Ackley')
    d = rng.randint(1, 6)
    o = K(d, a=rng.uniform(0, 30), b=rng.uniform(0, 1), c=rng.uniform(1, 9))
    dom = np.array(o.input_domain, dtype=float)
    scheme(h, 'Ackley', o, dom[:, 0], dom[:, 1])
    search(h, rng, 'Ackley', o, np.zeros((1, d)))


CASES = [('fixed', fixed, 400, 4000), ('scalable', scalable, 120, 1500), ('finding', finding, 2, 4), ('params', params, 60, 600)]
