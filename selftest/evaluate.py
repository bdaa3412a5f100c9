"""Numerical value of a term of the verifier under an assignment.

Written from the definition of the term language only (no normal forms, no
rewriting): used to compare what the verifier says an expression means with
what the installed numpy / scipy computes."""
import itertools
import math
import numpy as np
import ir


class Unknown(Exception):
    """the term has a symbol the assignment does not fix"""


def erf(x):
    return math.erf(x)


FN = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
      'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh, 'arctan': math.atan, 'floor': math.floor,
      'phi': lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi),
      'Phi': lambda x: .5 * (1 + math.erf(x / math.sqrt(2))), 'erf': math.erf, 'pow': lambda b, e: b ** e}


class Ev:
    def __init__(self, vals, arrs):
        self.vals, self.arrs = vals, arrs
        self.memo = {}

    def num(self, x, env=()):
        """x: Poly"""
        env = dict(env)
        return self._p(x, env)

    def _p(self, x, env):
        r = 0.
        for m, c in x.t:
            f = float(c)
            # an Iverson factor that is 0 makes the product 0 whatever the others are
            rest = []
            for a, e in m:
                if a.kind == 'iv':
                    if not self._b(a.data[0], env):
                        f = 0.
                        break
                else:
                    rest.append((a, e))
            if f == 0.:
                continue
            for a, e in rest:
                v = self._a(a, env)
                f *= v ** e
            r += f
        return r

    def _i(self, x, env):
        v = self._p(x, env)
        n = int(round(v))
        if abs(v - n) > 1e-6:
            raise ValueError('index %r' % v)
        return n

    def _mat(self, l, n, env):
        k = (l.id, n, tuple(sorted((a.id, v) for a, v in env.items() if a in l.fv)))
        if k not in self.memo:
            M = np.array([[self._lam(l, (i, j), env) for j in range(n)] for i in range(n)], dtype=float).reshape(n, n)
            self.memo[k] = M
        return self.memo[k]

    def _lam(self, l, ix, env):
        e = dict(env)
        e.update(zip(l.bvs, ix))
        return self._b(l.body, e) if isinstance(l.body, ir.Bool) else self._p(l.body, e)

    def _a(self, a, env):
        k = a.kind
        if k in ('var', 'bv'):
            if a in env:
                return env[a]
            if a is ir.PI:
                return math.pi
            if a is ir.INF:
                return math.inf
            if k == 'var' and a.data[0] in self.vals:
                return self.vals[a.data[0]]
            raise Unknown(ir.show(a))
        if k == 'grp':
            return self._p(a.data[0], env)
        if k == 'iv':
            return float(self._b(a.data[0], env))
        if k == 'app':
            if a.data[0] not in self.arrs:
                raise Unknown(a.data[0])
            ix = tuple(self._i(z, env) for z in a.data[1:])
            A = self.arrs[a.data[0]]
            if any(i < 0 or i >= s for i, s in zip(ix, A.shape)):
                return .123 + sum(ix)        # an element that does not exist: any value
            return float(A[ix])
        if k == 'fn':
            if a.data[0] not in FN:
                raise Unknown(a.data[0])
            return float(FN[a.data[0]](*[self._p(z, env) for z in a.data[1:]]))
        if k == 'sum':
            nb, h, sizes, mono = a.data
            bs = [ir.bv(h, i) for i in range(nb)]
            p = ir.poly({mono: ir.Fraction(1)})

            def go(i, e):
                if i == nb:
                    return self._p(p, e)
                n = self._i(sizes[i], e)
                return sum(go(i + 1, dict(e, **{}) | {bs[i]: q}) for q in range(n))
            return float(go(0, dict(env)))
        if k == 'prod':
            l, n = a.data
            return float(np.prod([self._lam(l, (q,), env) for q in range(self._i(n, env))]))
        if k == 'mat':
            kind, l, n, i, j = a.data
            n = self._i(n, env)
            M = self._mat(l, n, env)
            i, j = self._i(i, env), self._i(j, env)
            if kind in ('INV', 'INVG'):
                M = np.linalg.inv(M)
            elif kind in ('CH', 'ICH'):
                M = np.linalg.cholesky(M)
                if kind == 'ICH':
                    M = np.linalg.inv(M)
            else:
                raise Unknown(kind)
            return float(M[i, j])
        if k == 'amin':
            l, sizes, w = a.data
            best = None
            for ix in itertools.product(*[range(self._i(s, env)) for s in sizes]):
                v = self._lam(l, ix, env)
                if best is None or v < best[0]:
                    best = (v, ix)
            return best[1][w]
        if k == 'en':
            kind, l, n = a.data[:3]
            m = [bool(self._lam(l, (i,), env)) for i in range(self._i(n, env))]
            if kind == 'CARD':
                return float(sum(m))
            order = [i for i, t in enumerate(m) if t] + [i for i, t in enumerate(m) if not t]
            q = self._i(a.data[3], env)
            if not 0 <= q < len(m):
                return 0.
            return float(order[q] if kind == 'EN' else order.index(q))
        raise Unknown(k)

    def _b(self, b, env):
        k = b.kind
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'not':
            return not self._b(b.data[0], env)
        if k == 'and':
            return all(self._b(x, env) for x in b.data)
        if k == 'or':
            return any(self._b(x, env) for x in b.data)
        if k in ('lt', 'le', 'eq'):
            v = self._p(b.data[0], env)
            return v < 0 if k == 'lt' else v <= 0 if k == 'le' else abs(v) < 1e-9
        if k == 'forall':
            # (the bodies carry the range of their variables)
            l = b.data[0]
            return all(self._lam(l, ix, env) for ix in itertools.product(range(-1, 9), repeat=l.n))
        raise Unknown(k)
