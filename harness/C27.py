import importlib
import math
import numpy as np
from fmath import F, M, points, close

RULE = 'random sequences of 2..8 constructions of any problem with random arguments, checked after each; non-trivial: > 2 instances'
BOUND = '<= 8 instances, <= 7 dimensions'
FIXED = {**F.SINGLE, **F.MULTI}
COST = ('Forrester_1a', 'Forrester_1b', 'Forrester_1c', 'mf_Hartman3', 'mf_Sixhump', 'mf_Hartman6')


def cls(c):
    return getattr(importlib.import_module(FIXED[c][0] if c in FIXED else F.SF), c)


def snap(o):
    out = {}
    for a in ('num_dim', 'input_domain', 'optimum', 'optimum_scheme', 'num_obj', 'num_cons'):
        v = getattr(o, a)
        out[a] = None if v is None else np.array(v, dtype=float)
    return out


def same(a, b):
    return all((a[k] is None) == (b[k] is None) and (a[k] is None or np.array_equal(a[k], b[k])) for k in a)


def make(h, rng):
    k = rng.randint(4)
    if k == 0:
        d = int(rng.randint(1, 8))
        par = {} if rng.rand() < .5 else dict(a=rng.uniform(1, 30), b=rng.uniform(.1, 1), c=rng.uniform(1, 7))
        return 'Ackley', d, par, cls('Ackley')(d, **par)
    if k == 1:
        d = int(rng.randint(1, 8))
        par = {} if rng.rand() < .5 else dict(m=float(rng.randint(1, 6)), beta=rng.uniform(5, 20))
        return 'Thevenot', d, par, cls('Thevenot')(d, **par)
    c = sorted(FIXED)[rng.randint(len(FIXED))]
    kw = {'num_dim': FIXED[c][1]} if rng.rand() < .5 else {}
    if c in COST and rng.rand() < .5:
        kw['cost'] = [1.0, rng.uniform(.05, .9)]
    return c, FIXED[c][1], kw, cls(c)(**kw)


def declared(h, c, d, par, o, when):
    if c in FIXED:
        bx = [(float(a), float(b)) for a, b in F.BOX[c]]
    else:
        t = 32 if c == 'Ackley' else 2 * math.pi
        bx = [(-t, t)] * d
    h.check(o.num_dim == d and o._get_dimension == d, '%s: dimension, %s' % (c, when), got=o.num_dim, want=d)
    h.check(np.shape(o.input_domain) == (d, 2) and np.allclose(np.array(o.input_domain, dtype=float), bx, rtol=1e-14, atol=0)
            and o._input_domain is o.input_domain, '%s: domain, %s' % (c, when), got=o.input_domain)
    h.check(o._optimum is o.optimum or o._optimum == o.optimum, '%s: getters, %s' % (c, when))
    h.check(o._optimum_variable is o.optimum_scheme or np.array_equal(o._optimum_variable, o.optimum_scheme),
            '%s: getters, %s' % (c, when))
    if c not in FIXED:
        z = [0.0] * d
        w = F.ackley(M, lambda j: 0.0, d, par.get('a', 20), par.get('b', .2), par.get('c', 2 * math.pi)) if c == 'Ackley' else \
            F.thevenot(M, lambda j: 0.0, d, par.get('m', 5), par.get('beta', 15))
        h.check(list(o.optimum_scheme) == z and close(float(o.optimum), w), '%s: optimum, %s' % (c, when), d=d, got=o.optimum)
        x = np.linspace(-3, 2, d).reshape(1, -1)
        w = F.ackley(M, lambda j: float(x[0, j]), d, par.get('a', 20), par.get('b', .2), par.get('c', 2 * math.pi)) if c == 'Ackley' else \
            F.thevenot(M, lambda j: float(x[0, j]), d, par.get('m', 5), par.get('beta', 15))
        h.check(close(float(o.f(x)[0, 0]), w), '%s: value, %s' % (c, when), d=d, par=par)
    elif 'cost' in par:
        h.check(o.cr == round(par['cost'][0] / par['cost'][1]), '%s: cost ratio, %s' % (c, when), par=par, cr=o.cr)
    elif c in COST:
        h.check(o.cr == (10 if c == 'mf_Hartman6' else 5), '%s: cost ratio, %s' % (c, when), cr=o.cr)


def history(h, rng):
    made = []
    n = rng.randint(2, 9)
    for _ in range(n):
        c, d, par, o = make(h, rng)
        made.append((c, d, par, o, snap(o)))
        for c, d, par, o, s in made:
            declared(h, c, d, par, o, 'whatever was constructed')
            h.check(same(snap(o), s), '%s: unchanged by later constructions' % c, d=d)
    h.nontrivial(tuple(m[0] for m in made)) if n > 2 else None
    h.sample(order=[m[:3] for m in made])


def refuse(h, rng):
    c = (sorted(FIXED) + ['Ackley', 'Thevenot'])[rng.randint(len(FIXED) + 2)]
    K = cls(c)
    bad = [k for k in range(-3, 9) if (k != FIXED[c][1] if c in FIXED else k < 1)]
    k = bad[rng.randint(len(bad))]
    try:
        K(num_dim=k)
        h.fail('%s(num_dim=%d) is refused' % (c, k))
    except AssertionError:
        h.check(True, 'refused')
    h.sample(cls=c, bad=k)


CASES = [('history', history, 400, 6000), ('refuse', refuse, 400, 2000)]
