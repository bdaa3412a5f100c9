"""Lower bounds over boxes: outward rounded interval arithmetic with first
derivatives (mean value form), branch and bound.  All operations are vectorised
over the boxes.  Library functions (exp, log, sin, cos, sqrt of numpy) are taken
to be within 4 ulp."""
import math
import time
from fractions import Fraction
import numpy as np

INF = np.inf
EPS = 2.0 ** -52


def dn(x):
    return x - np.abs(x) * EPS - 5e-324


def up(x):
    return x + np.abs(x) * EPS + 5e-324


def dn4(x):
    return x - np.abs(x) * (5 * EPS) - 1e-300


def up4(x):
    return x + np.abs(x) * (5 * EPS) + 1e-300


class IV:
    __slots__ = ('lo', 'hi')
    __array_priority__ = 100

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __add__(s, o):
        o = iv(o)
        return IV(dn(s.lo + o.lo), up(s.hi + o.hi))
    __radd__ = __add__

    def __neg__(s):
        return IV(-s.hi, -s.lo)

    def __sub__(s, o):
        o = iv(o)
        return IV(dn(s.lo - o.hi), up(s.hi - o.lo))

    def __rsub__(s, o):
        return iv(o) - s

    def __mul__(s, o):
        o = iv(o)
        a, b, c, d = s.lo * o.lo, s.lo * o.hi, s.hi * o.lo, s.hi * o.hi
        return IV(dn(np.minimum(np.minimum(a, b), np.minimum(c, d))), up(np.maximum(np.maximum(a, b), np.maximum(c, d))))
    __rmul__ = __mul__

    def recip(s):
        bad = (s.lo <= 0) & (s.hi >= 0)
        with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
            return IV(np.where(bad, -INF, dn(1 / s.hi)), np.where(bad, INF, up(1 / s.lo)))

    def __truediv__(s, o):
        o = iv(o)
        return s * o.recip()

    def __rtruediv__(s, o):
        return iv(o) / s

    def __pow__(s, n):
        assert isinstance(n, int) and n >= 0
        if n == 0:
            return iv(1)
        if n == 1:
            return s
        a, b = s.lo, s.hi
        if n % 2 == 0:
            A, B = np.abs(a), np.abs(b)
            m = np.where((a <= 0) & (b >= 0), 0.0, np.minimum(A, B))
            M = np.maximum(A, B)
        else:
            m, M = a, b
        p, q = m, M
        for _ in range(n - 1):
            # magnitudes grow outward; for odd n the signs follow the base
            p = np.where(p * m >= 0, dn(p * m), dn(p * m))
            q = up(q * M)
        if n % 2 == 1:
            p, q = m, M
            for _ in range(n - 1):
                p, q = p * m, q * M
            p, q = p - np.abs(p) * (2 * n * EPS) - 1e-300, q + np.abs(q) * (2 * n * EPS) + 1e-300
        return IV(np.maximum(p, 0.0) if n % 2 == 0 else p, q)


def iv(x):
    if isinstance(x, IV):
        return x
    if isinstance(x, Fraction):
        f = float(x)
        if Fraction(f) == x:
            return IV(f, f)
        return IV(math.nextafter(f, -INF), math.nextafter(f, INF))
    return IV(x, x)


PIV = IV(math.nextafter(math.pi, 0), math.nextafter(math.pi, 4))


def i_exp(x):
    with np.errstate(over='ignore', under='ignore'):
        return IV(np.maximum(dn4(np.exp(x.lo)), 0.0), up4(np.exp(x.hi)))


def i_log(x):
    with np.errstate(divide='ignore', invalid='ignore'):
        return IV(np.where(x.lo > 0, dn4(np.log(np.maximum(x.lo, 1e-320))), -INF), up4(np.log(np.maximum(x.hi, 1e-320))))


def i_sqrt(x):
    return IV(np.maximum(dn4(np.sqrt(np.maximum(x.lo, 0))), 0.0), up4(np.sqrt(np.maximum(x.hi, 0))))


def _trig(x, f, top):
    """f in {sin, cos}; top: a maximiser of f; minimiser top + pi"""
    a, b = f(x.lo), f(x.hi)
    lo, hi = np.minimum(a, b) - 4e-16 - 1e-15 * 0, np.maximum(a, b) + 4e-16
    # argument reduction of numpy is accurate; the tests below are padded
    def hits(t):
        k = np.ceil((x.lo - t) / (2 * math.pi) - 1e-9)
        return t + 2 * math.pi * k <= x.hi + 1e-9
    hi = np.where(hits(top), 1.0, hi)
    lo = np.where(hits(top + math.pi), -1.0, lo)
    return IV(np.maximum(lo, -1.0), np.minimum(hi, 1.0))


def i_sin(x):
    return _trig(x, np.sin, math.pi / 2)


def i_cos(x):
    return _trig(x, np.cos, 0.0)


class AD:
    """value and gradient enclosures"""
    __slots__ = ('v', 'g')
    __array_priority__ = 100

    def __init__(self, v, g):
        self.v, self.g = v, g

    @staticmethod
    def lift(x, n):
        return x if isinstance(x, AD) else AD(iv(x), [None] * n)

    def _b(s, o):
        return AD.lift(o, len(s.g))

    def __add__(s, o):
        o = s._b(o)
        return AD(s.v + o.v, [a if b is None else b if a is None else a + b for a, b in zip(s.g, o.g)])
    __radd__ = __add__

    def __neg__(s):
        return AD(-s.v, [None if a is None else -a for a in s.g])

    def __sub__(s, o):
        return s + (-s._b(o))

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        o = s._b(o)
        g = []
        for a, b in zip(s.g, o.g):
            t = None if a is None else a * o.v
            u = None if b is None else s.v * b
            g.append(t if u is None else u if t is None else t + u)
        return AD(s.v * o.v, g)
    __rmul__ = __mul__

    def __truediv__(s, o):
        if not isinstance(o, AD):
            return AD(s.v / o, [None if a is None else a / o for a in s.g])
        r = o.v.recip()
        d = -(r * r)
        return s * AD(r, [None if b is None else d * b for b in o.g])

    def __rtruediv__(s, o):
        return s._b(o) / s

    def __pow__(s, n):
        return s.chain(s.v ** n, n * s.v ** (n - 1))

    def chain(s, v, d):
        return AD(v, [None if a is None else d * a for a in s.g])


class MI:
    """number system for checks/formulas.py"""
    pi = PIV
    D = staticmethod(lambda t: iv(Fraction(t)))

    @staticmethod
    def _f(x, f, d):
        if isinstance(x, AD):
            v = f(x.v)
            return x.chain(v, d(x.v, v))
        return f(iv(x))

    exp = staticmethod(lambda x: MI._f(x, i_exp, lambda a, v: v))
    log = staticmethod(lambda x: MI._f(x, i_log, lambda a, v: a.recip()))
    sqrt = staticmethod(lambda x: MI._f(x, i_sqrt, lambda a, v: (2 * v).recip()))
    sin = staticmethod(lambda x: MI._f(x, i_sin, lambda a, v: i_cos(a)))
    cos = staticmethod(lambda x: MI._f(x, i_cos, lambda a, v: -i_sin(a)))


def _patch():
    # IV op AD must defer to AD
    for nm in ('add', 'sub', 'mul', 'truediv'):
        f = getattr(IV, '__%s__' % nm)

        def g(s, o, f=f):
            if isinstance(o, AD):
                return NotImplemented
            return f(s, o)
        setattr(IV, '__%s__' % nm, g)


_patch()


def enclose(form, lo, hi):
    """lower bound and upper value at the midpoint, for boxes lo, hi (N, d); also gradient widths"""
    d = lo.shape[1]
    c = (lo + hi) / 2
    X = [AD(IV(lo[:, j], hi[:, j]), [IV(1.0, 1.0) if k == j else None for k in range(d)]) for j in range(d)]
    F = form(MI, X)
    if not isinstance(F, AD):
        F = AD.lift(F, d)
    C = form(MI, [IV(c[:, j], c[:, j]) for j in range(d)])
    C = iv(C)
    mv = C
    sm = []
    for j in range(d):
        g = F.g[j]
        if g is None:
            sm.append(np.zeros(len(lo)))
            continue
        t = g * IV(dn(lo[:, j] - c[:, j]), up(hi[:, j] - c[:, j]))
        mv = mv + t
        sm.append(np.where(np.isfinite(t.hi - t.lo), t.hi - t.lo, 1e300))
    low = np.maximum(np.broadcast_to(F.v.lo, (len(lo),)), np.where(np.isnan(mv.lo), -INF, np.broadcast_to(mv.lo, (len(lo),))))
    return low, np.broadcast_to(C.hi, (len(lo),)), np.stack(sm, 1), c, F


def lower(form, box, bound, cons=None, mult=(), max_boxes=3000000, deadline=None, batch=60000, stats=None):
    """decides  form(x) >= bound  for all x of the box (with cons(x) <= 0).
    -> ('ok', n) | ('witness', x, value) | ('open', x)"""
    lo = np.array([[float(a) for a, _ in box]])
    hi = np.array([[float(b) for _, b in box]])
    stack = [(lo, hi)]
    n = 0
    while stack:
        lo, hi = stack.pop()
        if len(lo) > batch:
            stack.append((lo[batch:], hi[batch:]))
            lo, hi = lo[:batch], hi[:batch]
        elif stack and len(lo) < batch // 4:
            a, b = stack.pop()
            lo, hi = np.concatenate((lo, a)), np.concatenate((hi, b))
        n += len(lo)
        if n > max_boxes or (deadline and time.time() > deadline):
            return 'open', [float(t) for t in (lo[0] + hi[0]) / 2], n
        low, cup, sm, c, F = enclose(form, lo, hi)
        ok = low >= bound
        if cons is None:
            w = np.where(cup < bound)[0]
            if len(w):
                return 'witness', [float(t) for t in c[w[0]]], float(cup[w[0]])
        else:
            gl, gup, gs, _, _ = enclose(cons, lo, hi)
            ok |= gl > 0
            w = np.where((cup < bound) & (gup <= 0))[0]
            if len(w):
                return 'witness', [float(t) for t in c[w[0]]], float(cup[w[0]])
            for mu in mult:
                l2, _, _, _, _ = enclose(lambda m, x: form(m, x) + mu * cons(m, x), lo, hi)
                ok |= l2 >= bound
            sm = sm + gs
        k = ~ok
        if not k.any():
            continue
        lo, hi, sm = lo[k], hi[k], sm[k]
        # split along the coordinate with the largest contribution
        j = np.argmax(np.where(hi - lo > 1e-12, sm + 1e-9 * (hi - lo), -1), axis=1)
        r = np.arange(len(lo))
        mid = (lo[r, j] + hi[r, j]) / 2
        l2, h2 = lo.copy(), hi.copy()
        l2[r, j] = mid
        h1 = hi.copy()
        h1[r, j] = mid
        stack.append((np.concatenate((lo, l2)), np.concatenate((h1, h2))))
    return 'ok', n, None
