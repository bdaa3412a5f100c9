"""C25  multi-fidelity test problems"""
from base import *
from probmath import M, point, inside
import formulas as F


def mk(cls, meth):
    mod, d, meths = F.MULTI[cls]
    form = meths[meth]

    def s(v):
        R = setup(v)
        K = getattr(R.load(mod), cls)
        n = v.dim('n')
        X = v.array('X', n, d)
        inside(v, X, n, F.BOX[cls])
        whos = [('instance', getattr(K(), meth))]
        if isinstance(K.__dict__.get(meth), staticmethod):
            whos.append(('class', getattr(K, meth)))
        for who, fn in whos:
            y = fn(X)
            v.ensure_shape('one value per row (%s)' % who, y, (n, 1))
            v.ensure_forall('value of the formula (%s)' % who, [n], lambda i: eqn(E(y, i, 0), form(M, point(X, i, d))))
    return s


def mk_call(cls):
    mod, d, meths = F.MULTI[cls]

    def s(v):
        R = setup(v)
        o = getattr(R.load(mod), cls)()
        n, k = v.dim('n'), v.dim('k')
        X, Y = v.array('X', n, d), v.array('Y', k, d)
        inside(v, X, n, F.BOX[cls])
        inside(v, Y, k, F.BOX[cls])
        out = o(vc.L([X, Y]))
        v.ensure('two fidelities', eqn(vc.vlen(out), 2))
        v.ensure_shape('high fidelity first', out[0], (n, 1))
        v.ensure_shape('then low fidelity', out[1], (k, 1))
        v.ensure_forall('high fidelity responses', [n], lambda i: eqn(E(out[0], i, 0), meths['hf'](M, point(X, i, d))))
        v.ensure_forall('low fidelity responses', [k], lambda i: eqn(E(out[1], i, 0), meths['lf'](M, point(Y, i, d))))
        out = o(vc.L([X]))
        v.ensure('one fidelity', eqn(vc.vlen(out), 1))
        v.ensure_forall('high fidelity alone', [n], lambda i: eqn(E(out[0], i, 0), meths['hf'](M, point(X, i, d))))
    return s


def borehole_base(v):
    R = setup(v)
    K = R.load(F.MF).mf_Borehole
    n = v.dim('n')
    X = v.array('X', n, 8)
    a, b_ = v.real('a'), v.real('b')
    y = K.base(X, a, b_)
    v.ensure_shape('one value per row', y, (n, 1))
    v.ensure_forall('value', [n], lambda i: eqn(E(y, i, 0), F.borehole_ab(M, point(X, i, 8), a, b_)))


def defined(v):
    """every formula is defined on its whole box (arguments of log, sqrt and denominators)"""
    setup(v)

    def pt(cls, *extra):
        x = [v.real('%s%d' % (cls, j)) for j in range(len(F.BOX[cls]))]
        for t, (lo, hi) in zip(x, F.BOX[cls]):
            v.assume(And(fl(str(lo)) <= t, t <= fl(str(hi))))
        return x
    a, b_, c, d = pt('mf_Park91A')
    v.ensure('Park91A: square root of a number >= 0', a ** 2 + (b_ + c ** 2) * d >= 0)
    rw, r, tu, hu, tl, hl, le, kw = pt('mf_Borehole')
    v.ensure('Borehole: r > rw > 0', And(rw > 0, r > rw))
    q = v.real('log')
    v.assume(q > 0)          # log(r / rw) for r > rw > 0
    t = v.real('t')
    v.assume(eqn(t * (q * rw ** 2 * kw), 2 * le * tu))
    v.ensure('Borehole: inner denominators', And(q * rw ** 2 * kw > 0, tl > 0))
    v.ensure('Borehole: inner quotient', t > 0)
    for nm, b0 in (('high', 1), ('low', fl('1.5'))):
        v.ensure('Borehole: outer denominator, %s' % nm, And(q > 0, b0 + t + tu / tl > 0))
    a, b_ = pt('mf_CurrinExp')
    for s in (-1, 0, 1):
        e = a + s * fl('0.05')
        v.ensure('Currin: denominator shift %d' % s, 100 * e ** 3 + 500 * e ** 2 + 4 * e + 20 > 0)
    v.ok('Currin: 1/(2 x2) is used for x2 > 1e-8 only')
    v.ok('Hartman6: the logarithm is of a sum of exponentials with positive factors')


DTYPES = True             # arguments of whole numbers too
SCENARIOS = [('%s.%s' % (c, m), mk(c, m)) for c, (_, _, ms) in F.MULTI.items() for m in ms]
SCENARIOS += [('%s call' % c, mk_call(c)) for c in F.MULTI]
SCENARIOS += [('mf_Borehole.base', borehole_base), ('defined everywhere', defined)]
ASSUMPTIONS = ['the published formulas are the ones in checks/formulas.py',
               'finiteness in IEEE doubles is a runtime contract; the proof shows that the formula is defined on the whole box']
