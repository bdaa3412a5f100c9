"""C27  problem instances are independent and check their dimension"""
from base import *
from probmath import M
import formulas as F

FIXED = {**F.SINGLE, **F.MULTI}
DECL = ('num_dim', 'num_obj', 'num_cons', 'input_domain', 'optimum', 'optimum_scheme')
GET = {'_get_dimension': 'num_dim', '_input_domain': 'input_domain', '_optimum': 'optimum', '_optimum_variable': 'optimum_scheme'}


def others(R, v, skip=()):
    """constructions of other problems, with other settings"""
    d2, d3 = v.dim('d2'), v.dim('d3')
    sf = R.load(F.SF)
    sf.Ackley(d2, v.real('a2'), v.real('b2'), v.real('c2'))
    sf.Thevenot(d3, v.real('m2'), v.real('beta2'))
    for c, (mod, d, ms) in FIXED.items():
        getattr(R.load(mod), c)()
    for c in ('Forrester_1a', 'Forrester_1b', 'Forrester_1c', 'mf_Hartman3', 'mf_Sixhump', 'mf_Hartman6'):
        getattr(R.load(F.MF), c)(cost=vc.L([num(7), num(2)]))


def snap(v):
    """the value of an attribute, detached from the object"""
    if isinstance(v, (SArr, SList)):
        return A.copy(asarr(v))
    return v


def equal(v, name, a, b_):
    if isinstance(b_, (SArr, SList)):
        v.ensure_eq(name, asarr(a), b_)
    elif b_ is None or isinstance(b_, (bool, str)):
        v.ok(name) if a is b_ or (isinstance(b_, str) and a == b_) else v.fail(name, 'changed')
    else:
        v.ensure(name, eqn(a, b_))


def mk(cls):
    mod, d, _ = FIXED[cls]
    bx = F.BOX[cls]

    def s(v):
        R = setup(v)
        K = getattr(R.load(mod), cls)
        o = K()
        before = {a: snap(getattr(o, a)) for a in DECL}
        v.ensure('dimension', eqn(o.num_dim, d))

        def domain(tag):
            v.ensure_shape('one (low, high) row per dimension' + tag, o.input_domain, (d, 2))
            v.ensure('the declared domain' + tag, And(*[And(eqn(E(o.input_domain, j, 0), fl(str(lo))), eqn(E(o.input_domain, j, 1), fl(str(hi))))
                                                for j, (lo, hi) in enumerate(bx)]))
        domain('')
        others(R, v)
        p = K(num_dim=d)
        domain(', after other constructions')
        for a in DECL:
            equal(v, '%s after other constructions' % a, getattr(o, a), before[a])
            equal(v, '%s of a later instance' % a, getattr(p, a), before[a])
        for g, a in GET.items():
            if before[a] is not None:
                equal(v, '%s returns it' % g, getattr(o, g), before[a])
    return s


def mk_refuse(cls):
    mod, d, _ = FIXED[cls]

    def s(v):
        R = setup(v)
        K = getattr(R.load(mod), cls)
        k = v.int('k')
        try:
            K(num_dim=k)
        except AssertionError:
            v.ensure('its own dimension is accepted', Not(eqn(k, d)))
            return
        v.ensure('other dimensions are refused', eqn(k, d))
    return s


def declared(v, o, d, lo, hi, tag, opt):
    v.ensure('dimension' + tag, And(eqn(o.num_dim, d), eqn(o._get_dimension, d)))
    v.ensure_shape('domain' + tag, o.input_domain, (d, 2))
    v.ensure_forall('domain values' + tag, [d], lambda j: And(eqn(E(o.input_domain, j, 0), lo), eqn(E(o.input_domain, j, 1), hi)))
    v.ensure('optimum location: length' + tag, eqn(vc.vlen(o.optimum_scheme), d))
    v.ensure_forall('optimum location' + tag, [d], lambda j: eqn(E(asarr(o.optimum_scheme), j), 0))
    v.ensure('optimum value' + tag, eqn(o.optimum, opt))
    v.ensure_eq('getters' + tag, o._input_domain, o.input_domain)
    v.ensure('getter of the optimum' + tag, eqn(o._optimum, o.optimum))


def scal(name):
    def s(v):
        R = setup(v)
        K = getattr(R.load(F.SF), name)
        d, n = v.dim('d'), v.dim('n')
        if name == 'Ackley':
            par = {'a': v.real('a'), 'b': v.real('b'), 'c': v.real('c')}
            lo, hi = num(-32), num(32)
            form = lambda x: F.ackley(M, x, d, par['a'], par['b'], par['c'])
        else:
            par = {'m': v.real('m'), 'beta': v.real('beta')}
            lo, hi = -2 * M.pi, 2 * M.pi
            form = lambda x: F.thevenot(M, x, d, par['m'], par['beta'])
        o = K(d, **par)
        opt = form(lambda j: num(0))
        declared(v, o, d, lo, hi, '', opt)
        X = v.array('X', n, d)
        others(R, v)
        K(v.dim('d4'))
        declared(v, o, d, lo, hi, ', after other constructions', opt)
        v.ensure_forall('values, after other constructions', [n], lambda i: eqn(E(o.f(X), i, 0), form(lambda j: E(X, i, j))))
        # an instance made after the others
        d5 = v.dim('d5')
        p = K(d5)
        q = F.ackley(M, lambda j: num(0), d5, num(20), fl('0.2'), 2 * M.pi) if name == 'Ackley' else \
            F.thevenot(M, lambda j: num(0), d5, num(5), num(15))
        declared(v, p, d5, lo, hi, ', later instance', q)
        for a in ('num_dim', 'input_domain', 'optimum', 'optimum_scheme'):
            v.ok('class attribute %s stays unset' % a) if getattr(K, a) is None else v.fail('class attribute %s' % a, 'set')
    return s


def scal_refuse(name):
    def s(v):
        R = setup(v)
        K = getattr(R.load(F.SF), name)
        k = v.int('k', hi=0)
        try:
            K(k)
            v.fail('dimensions below 1 are refused', 'accepted')
        except AssertionError:
            v.ok('dimensions below 1 are refused')
        for bad in (vc.C('2.5'), 'two'):
            try:
                K(bad)
                v.fail('%r is refused' % (bad,), 'accepted')
            except AssertionError:
                v.ok('%r is refused' % (bad,))
    return s


SCENARIOS = [('%s' % c, mk(c)) for c in FIXED] + [('%s refuses' % c, mk_refuse(c)) for c in FIXED]
SCENARIOS += [('%s' % c, scal(c)) for c in ('Ackley', 'Thevenot')] + [('%s refuses' % c, scal_refuse(c)) for c in ('Ackley', 'Thevenot')]
ASSUMPTIONS = ['the published domains are the ones in checks/formulas.py:BOX']
