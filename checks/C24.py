"""C24  single-fidelity and constrained test functions"""
from base import *
from probmath import M, point, inside
import formulas as F


def mk(cls, meth):
    mod, d, meths = F.SINGLE[cls]
    form = meths[meth]

    def s(v):
        R = setup(v)
        K = getattr(R.load(mod), cls)
        n = v.dim('n')
        X = v.array('X', n, d)
        inside(v, X, n, F.BOX[cls])
        for who, fn in (('instance', getattr(K(), meth)), ('class', getattr(K, meth))):
            if who == 'class' and not isinstance(K.__dict__.get(meth), staticmethod):
                continue
            y = fn(X)
            v.ensure_shape('one value per row (%s)' % who, y, (n, 1))
            v.ensure_forall('value of the formula (%s)' % who, [n], lambda i: eqn(E(y, i, 0), form(M, point(X, i, d))))
    return s


def box_scalable(v, X, n, d, lo, hi):
    i, j = uvar('b', 'I', 0, to_poly(n)), uvar('b', 'I', 0, to_poly(d))
    f = X.nsnap()
    q = f((P(i), P(j)))
    rng = [NOT(mkb('lt', (P(i),))), mkb('lt', (P(i) - to_poly(n),)), NOT(mkb('lt', (P(j),))), mkb('lt', (P(j) - to_poly(d),))]
    v.c.assume(FORALL([i, j], IMPL(AND(*rng), AND(LE(to_poly(lo), q), LE(q, to_poly(hi))))))


def ackley(v):
    R = setup(v)
    K = R.load(F.SF).Ackley
    d, n = v.dim('d'), v.dim('n')
    for tag, par in (('default', {}), ('any', {'a': v.real('a'), 'b': v.real('b'), 'c': v.real('c')})):
        o = K(d, **par)
        a, b_, c = (par['a'], par['b'], par['c']) if par else (num(20), fl('0.2'), 2 * M.pi)
        X = v.array('X', n, d)
        y = o.f(X)
        v.ensure_shape('one value per row, %s' % tag, y, (n, 1))
        v.ensure_forall('value of the formula, %s parameters' % tag, [n],
                        lambda i: eqn(E(y, i, 0), F.ackley(M, lambda j: E(X, i, j), d, a, b_, c)))
        p = o.get_param()
        v.ensure('parameters %s' % tag, And(eqn(p['a'], a), eqn(p['b'], b_), eqn(p['c'], c)))


def thevenot(v):
    R = setup(v)
    K = R.load(F.SF).Thevenot
    d, n = v.dim('d'), v.dim('n')
    for tag, par in (('default', {}), ('any', {'m': v.real('m'), 'beta': v.real('beta')})):
        o = K(d, **par)
        mm, beta = (par['m'], par['beta']) if par else (num(5), num(15))
        X = v.array('X', n, d)
        y = o.f(X)
        v.ensure_shape('one value per row, %s' % tag, y, (n, 1))
        v.ensure_forall('value of the formula, %s parameters' % tag, [n],
                        lambda i: eqn(E(y, i, 0), F.thevenot(M, lambda j: E(X, i, j), d, mm, beta)))


DTYPES = True             # arguments of whole numbers too
SCENARIOS = [('%s.%s' % (c, m), mk(c, m)) for c, (_, _, ms) in F.SINGLE.items() for m in ms]
SCENARIOS += [('Ackley.f', ackley), ('Thevenot.f', thevenot)]
ASSUMPTIONS = ['the published formulas are the ones in checks/formulas.py', 'inputs are two-dimensional arrays']
