"""The verifier against toy programs: what is true is proved, what is false is not."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'engine'), os.path.join(HERE, '..', 'checks')]
sys.setrecursionlimit(20000)
from base import *
import bo
T = []


def toy(want, name=None, **opt):
    def d(f):
        T.append((name or f.__name__, want, f, opt))
        return f
    return d


def prog(v, nm):
    R = loader.Registry(src=HERE)
    v.c.rng = N.RNG(SNum(P(var('rng0', 'I'))))
    return getattr(R.load('toy'), nm)


def nest(v, f):
    n, m = v.dim('n'), v.dim('m')
    a = v.array('a', m)
    b = prog(v, 'nested')(A.copy(a), n, m)
    v.ensure_forall('x', [m], lambda j: f(E(b, j), E(a, j), n))


toy(True, 'nested writes')(lambda v: nest(v, lambda b, a, n: eqn(b, a + n)))
toy(False, 'nested writes: last only')(lambda v: nest(v, lambda b, a, n: eqn(b, a + 1)))


def nest2(v, f):
    n, m = v.dim('n'), v.dim('m')
    a = v.array('a', m)
    s = prog(v, 'nested2')(a, n, m)
    v.ensure('x', f(s, Sum(m, lambda j: E(a, j)), n))


toy(False, 'nested sums: one')(lambda v: nest2(v, lambda s, t, n: eqn(s, t)))


def al(v, f, n=None):
    n = v.dim('n') if n is None else n
    m = v.dim('m')
    a = v.array('a', m)
    x, y = prog(v, 'alias_entry')(A.copy(a), n)
    v.ensure('x', f(E(x, 0), E(y, 0), E(a, 0), n))


# a aliases b at the entry: iteration 1 doubles b[0] and then a = 2 * (2 a0) = 4 a0
toy(True, 'alias at entry, 1 step')(lambda v: al(v, lambda x, y, a, n: And(eqn(x, 4 * a), eqn(y, 2 * a)), 1))
toy(False, 'alias at entry: havoc must not separate')(lambda v: al(v, lambda x, y, a, n: Imp(eqn(n, 1), eqn(x, 2 * a))))
toy(True, 'alias at entry: first step')(lambda v: al(v, lambda x, y, a, n: Imp(eqn(n, 1), eqn(x, 4 * a))))


def sw(v, f):
    n, m = v.dim('n'), v.dim('m')
    a, b = v.array('a', m), v.array('b', m)
    x, y = prog(v, 'swap')(A.copy(a), A.copy(b), n)
    v.ensure('x', f(E(x, 0), E(y, 0), E(a, 0), E(b, 0), n))


toy(False, 'swap with writes')(lambda v: sw(v, lambda x, y, a, b, n: eqn(x, b + 1)))


def late(v, f):
    n, m = v.dim('n'), v.dim('m')
    a = v.array('a', m)
    x = prog(v, 'alias_late')(A.copy(a), n)
    v.ensure('x', f(E(x, 0), E(a, 0), n))


toy(False, 'alias created in the loop')(lambda v: late(v, lambda x, a, n: eqn(x, a)))
toy(False, 'alias created in the loop, 1')(lambda v: late(v, lambda x, a, n: eqn(x, a + 1)))


def dep(v, f):
    n, m = v.dim('n'), v.dim('m')
    a = v.array('a', n)
    b = prog(v, 'nested_dep')(A.copy(a), n, 3)
    v.ensure_forall('x', [n], lambda j: f(E(b, j), E(a, j)))


toy(True, 'rows')(lambda v: dep(v, lambda b, a: eqn(b, 8 * a)))
toy(False, 'rows: wrong')(lambda v: dep(v, lambda b, a: eqn(b, 4 * a)))


def brk(v, f):
    n = v.dim('n')
    a = v.array('a', n)
    k = prog(v, 'brk')(a, n)
    f(v, k, a, n)


toy(True, 'break')(lambda v: brk(v, lambda v, k, a, n: v.ensure('x', And(k >= 0, k <= n))))
toy(False, 'break: never')(lambda v: brk(v, lambda v, k, a, n: v.ensure('x', eqn(k, n))))
toy(False, 'break: at once')(lambda v: brk(v, lambda v, k, a, n: v.ensure('x', eqn(k, 0))))


def after(v, f):
    n = v.dim('n', 0)
    a = v.array('a', n)
    r = prog(v, 'after')(a, n)
    v.ensure('x', f(r, a, n))


toy(True, 'last value')(lambda v: after(v, lambda r, a, n: Or(And(eqn(n, 0), eqn(r, 0)), And(n > 0, eqn(r, E(a, n - 1))))))
toy(False, 'last value: no iteration')(lambda v: after(v, lambda r, a, n: eqn(r, E(a, n - 1))))


def msk(v, f):
    n = v.dim('n')
    a = v.array('a', n)
    b = prog(v, 'mask')(a)
    v.ensure_forall('x', [n], lambda i: f(E(b, i), E(a, i)))


toy(True, 'mask')(lambda v: msk(v, lambda b, a: Or(And(a > 0, eqn(b, a)), And(a <= 0, eqn(b, 0)))))
toy(False, 'mask: all')(lambda v: msk(v, lambda b, a: eqn(b, a)))


def grow(v, f):
    n = v.dim('n')
    r = prog(v, 'growing')(n)
    v.ensure('n', eqn(vc.vlen(r), n))
    v.ensure_forall('x', [n], lambda i: f(SNum(to_poly(r.get(i.p))), i))


toy(True, 'list')(lambda v: grow(v, lambda x, i: eqn(x, i * i)))
toy(False, 'list: wrong')(lambda v: grow(v, lambda x, i: eqn(x, i)))


def main():
    bad = 0
    for nm, want, f, opt in T:
        ver = explore.Verifier('selftest', **opt)
        how = ''
        try:
            ver.run(f)
            got = bool(ver.obs) and all(o.status == 'ok' for o in ver.obs)
        except Unsupported as e:
            got, how = False, 'unsupported: %s' % e
        if got != want:
            bad += 1
        print('%-5s %s %s %s' % ('ok' if got == want else 'WRONG', nm, 'proved' if got else 'not proved', how))
    print('%d toy obligations, %d wrong' % (len(T), bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
