"""C26  declared optima are attained and never beaten"""
import time
from fractions import Fraction
import numpy as np
from base import *
from probmath import M, point, inside
import formulas as F
import ibb

# tolerance of "takes the declared value there" (printed digits of value and location)
ATTAIN = {'Sixhump': 5e-5, 'mf_Sixhump': 5e-5, 'Sasena': 5e-5, 'Hartman3': 2e-4, 'mf_Hartman3': 2e-4, 'Branin_1': 2e-4,
          'Branin_2': 2e-3}
# tolerance of "never beaten" (printed digits of the value)
BEAT = {'Sixhump': 5e-5, 'mf_Sixhump': 5e-5, 'Sasena': 5e-5, 'Branin_1': 1e-4, 'Branin_2': 1e-3}
HIGH = {c: ('hf' if c in F.MULTI else 'f') for c in list(F.SINGLE) + list(F.MULTI)}
DECLARED = [c for c in list(F.SINGLE) + list(F.MULTI) if c not in (
    'mf_Discontinuous', 'ContinuousNonlinearCorrelation1D', 'PhaseShiftedOscillations', 'mf_Borehole', 'mf_CurrinExp',
    'mf_Himmelblau', 'mf_Park91A', 'mf_Park91B')]


def ival(p):
    """enclosure of a closed number"""
    p = to_poly(p)
    s = ibb.iv(0.0)
    for m, c in p.t:
        t = ibb.iv(c)
        for a, e in m:
            if a.kind == 'var' and a.data[0] == 'pi':
                q = ibb.PIV
            elif a.kind == 'fn' and a.data[0] in ('log', 'exp', 'sin', 'cos', 'sqrt'):
                q = getattr(ibb.MI, a.data[0])(ival(a.data[1]))
            else:
                raise Unsupported('not a closed number')
            for _ in range(abs(e)):
                t = t * q if e > 0 else t / q
        s = s + t
    return s


def rec(v, name, ok, how):
    v.ver.record(v.c, name, 'ok' if ok else 'fail', how)


def locations(o, d):
    s = asarr(o.optimum_scheme)
    if s.ndim == 1:
        return [[ival(E(s, j)) for j in range(d)]] if eqn(s.shape[0], d) is TRUE else None
    k = to_poly(s.shape[0]).const()
    return [[ival(E(s, i, j)) for j in range(d)] for i in range(int(k))] if eqn(s.shape[1], d) is TRUE else None


def mk(cls):
    mod, d, ms = F.SINGLE.get(cls) or F.MULTI[cls]
    meth = HIGH[cls]
    form = ms[meth]
    cons = ms.get('f_cons')

    def s(v):
        R = setup(v)
        o = getattr(R.load(mod), cls)()
        n = v.dim('n')
        X = v.array('X', n, d)
        box_ = [(ival(E(o.input_domain, j, 0)), ival(E(o.input_domain, j, 1))) for j in range(d)]
        for nm, fm in ((meth, form),) + ((('f_cons', cons),) if cons else ()):
            y = getattr(o, nm)(X)
            v.ensure_shape('%s: one value per row' % nm, y, (n, 1))
            v.ensure_forall('%s: value of the formula' % nm, [n], lambda i: eqn(E(y, i, 0), fm(M, point(X, i, d))))
        if o.optimum is None:
            v.fail('an optimum is declared', 'None')
            return
        opt = ival(o.optimum)
        locs = locations(o, d)
        if locs is None:
            v.fail('one coordinate per dimension', 'shape')
            return
        v.ok('one coordinate per dimension')
        ta, tb = ATTAIN.get(cls, 1e-6), BEAT.get(cls, 1e-6)
        for i, x in enumerate(locs):
            rec(v, 'location %d lies in the domain' % i, all(a.lo <= t.lo and t.hi <= b_.hi for t, (a, b_) in zip(x, box_)), str(i))
            f = ibb.iv(form(ibb.MI, x))
            rec(v, 'location %d has the declared value' % i, f.hi <= opt.hi + ta and f.lo >= opt.lo - ta,
                'interval [%r, %r], declared [%r, %r]' % (float(f.lo), float(f.hi), float(opt.lo), float(opt.hi)))
            if cons:
                g = ibb.iv(cons(ibb.MI, x))
                rec(v, 'location %d is feasible' % i, g.hi <= 0, 'constraint in [%r, %r]' % (float(g.lo), float(g.hi)))
        mult = ()
        if cons:
            x0 = [float(t.lo + t.hi) / 2 for t in locs[0]]
            _, _, _, _, a = ibb.enclose(form, np.array([x0]), np.array([x0]))
            _, _, _, _, c = ibb.enclose(cons, np.array([x0]), np.array([x0]))
            gf, gc = [np.array([float(np.ravel(g.lo)[0]) if g is not None else 0. for g in q.g]) for q in (a, c)]
            lam = max(0.0, -float(gf @ gc) / float(gc @ gc))
            mult = tuple(lam * k for k in (.25, .5, .75, 1))
        bnd = [(float(a.lo), float(b_.hi)) for a, b_ in box_]
        t0 = time.time()
        r = ibb.lower(form, bnd, float(opt.lo) - tb, cons=cons, mult=mult, max_boxes=6000000, deadline=v.ver.deadline)
        if r[0] == 'open':
            raise Unsupported('branch and bound did not finish near %s' % r[1])
        rec(v, 'no %spoint of the domain is below the declared optimum - %g' % ('feasible ' if cons else '', tb), r[0] == 'ok',
            'interval branch and bound: %d boxes, %.1f s' % (r[1], time.time() - t0) if r[0] == 'ok' else 'point %s has the value %s' % (r[1], r[2]))
    return s


def ackley(v):
    R = setup(v)
    K = R.load(F.SF).Ackley
    d, n = v.dim('d'), v.dim('n')
    for tag, par in (('default', {}), ('any', {'a': v.real('a'), 'b': v.real('b'), 'c': v.real('c')})):
        if par:
            v.assume(And(par['a'] >= 0, par['b'] >= 0))
        a, b_, c = (par['a'], par['b'], par['c']) if par else (num(20), fl('0.2'), 2 * M.pi)
        o = K(d, **par)
        X = v.array('X', n, d)
        y = o.f(X)
        v.ensure_shape('one value per row, ' + tag, y, (n, 1))
        v.ensure_forall('value of the formula, ' + tag, [n], lambda i: eqn(E(y, i, 0), F.ackley(M, lambda j: E(X, i, j), d, a, b_, c)))
        v.ensure('the location has one coordinate per dimension, ' + tag, eqn(vc.vlen(o.optimum_scheme), d))
        loc = asarr(o.optimum_scheme)
        v.ensure_forall('the location is the origin, ' + tag, [d], lambda j: eqn(E(loc, j), 0))
        v.ensure_forall('the origin lies in the domain, ' + tag, [d], lambda j: And(E(o.input_domain, j, 0) <= 0, 0 <= E(o.input_domain, j, 1)))
        v.ensure('declared value 0, ' + tag, eqn(o.optimum, 0))
        z = o.f(np_().zeros((1, d)))
        v.ensure('value at the location, ' + tag, eqn(E(z, 0, 0), o.optimum))
        # f >= 0:  exp(mean cos) <= e  and  a exp(-b sqrt(mean squares)) <= a
        x = v.array('x', d)
        v.sum_nonneg('1 - cos >= 0, ' + tag, d, lambda j: 1 - M.cos(c * E(x, j)))
        v.sum_nonneg('squares >= 0, ' + tag, d, lambda j: E(x, j) ** 2)
        mc = Sum(d, lambda j: M.cos(c * E(x, j))) / d
        ms = Sum(d, lambda j: E(x, j) ** 2) / d
        v.ensure('mean of cosines <= 1, ' + tag, mc <= 1)
        v.ensure('mean of squares >= 0, ' + tag, ms >= 0)
        r = v.real('r_' + tag)       # any mean of cosines / of squares
        q = v.real('q_' + tag)
        v.assume(And(r <= 1, q >= 0))
        v.ensure('exp(r - 1) <= 1, ' + tag, M.exp(r - 1) <= 1)
        v.ensure('exp(r) = e exp(r - 1), ' + tag, eqn(M.exp(r), M.exp(num(1)) * M.exp(r - 1)))
        v.ensure('the first term is at least -a, ' + tag, a * M.exp(-b_ * M.sqrt(q)) <= a)
        e, w, t = v.real('e_' + tag), v.real('w_' + tag), v.real('t_' + tag)    # exp(1), exp(r - 1), the first term
        v.ensure('exp(1) >= 0', M.exp(num(1)) >= 0)
        v.ensure('never below the declared value, ' + tag, Imp(And(e >= 0, w <= 1, t <= a), -t - e * w + a + e >= 0))


def thevenot(v):
    R = setup(v)
    K = R.load(F.SF).Thevenot
    d, n = v.dim('d'), v.dim('n')
    o = K(d)
    X = v.array('X', n, d)
    y = o.f(X)
    form = lambda x: F.thevenot(M, x, d, num(5), num(15))
    v.ensure_shape('one value per row', y, (n, 1))
    v.ensure_forall('value of the formula', [n], lambda i: eqn(E(y, i, 0), form(lambda j: E(X, i, j))))
    v.ensure('the location has one coordinate per dimension', eqn(vc.vlen(o.optimum_scheme), d))
    loc = asarr(o.optimum_scheme)
    v.ensure_forall('the location is the origin', [d], lambda j: eqn(E(loc, j), 0))
    v.ensure_forall('the origin lies in the domain', [d], lambda j: And(E(o.input_domain, j, 0) <= 0, 0 <= E(o.input_domain, j, 1)))
    z = o.f(np_().zeros((1, d)))
    v.ensure('value at the location', eqn(E(z, 0, 0), o.optimum))
    # one dimension: never beaten
    o = K(1)
    bnd = [(float(ival(E(o.input_domain, 0, 0)).lo), float(ival(E(o.input_domain, 0, 1)).hi))]
    form1 = lambda m, x: m.exp(-(x[0] / 15) ** 10) - 2 * m.exp(-x[0] ** 2) * m.cos(x[0]) ** 2
    y = o.f(v.array('X1', n, 1))
    X1 = v.array('X1', n, 1)
    v.ensure_forall('one dimension: the formula', [n], lambda i: eqn(E(y, i, 0), form1(M, [E(X1, i, 0)])))
    opt = ival(o.optimum)
    r = ibb.lower(form1, bnd, float(opt.lo) - 1e-6, max_boxes=1000000)
    rec(v, 'one dimension: no point is below the declared optimum', r[0] == 'ok', str(r))


DTYPES = True             # arguments of whole numbers too
SCENARIOS = [(c, mk(c)) for c in DECLARED] + [('Ackley', ackley), ('Thevenot', thevenot)]
ASSUMPTIONS = ['the published formulas are the ones in checks/formulas.py',
               'numpy exp, log, sin, cos, sqrt are within 4 ulp (interval analysis)',
               'tolerances: printed digits (ATTAIN, BEAT in checks/C26.py)',
               'Ackley with its own parameters: a >= 0, b >= 0']
TRUSTED = ['checks/ibb.py: outward rounded interval arithmetic, mean value form, branch and bound']
