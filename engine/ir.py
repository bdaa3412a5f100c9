"""Term language of the verifier (npvc).

Everything the symbolic executor computes is a hash-consed term:

* Poly  - a multivariate polynomial with rational coefficients over *atoms*
          (exact real arithmetic; integer terms are Polys over int atoms);
* Atom  - variable, array element (uninterpreted application), elementary
          function of Polys, reciprocal of a sum, finite sum with binder,
          Iverson bracket [cond], arg-min, matrix inverse / Cholesky element;
* Bool  - comparison of a Poly with 0, boolean combination, quantified fact;
* Lam   - a Poly (or Bool) abstracted over index variables (locally nameless,
          bound names are chosen by binder height so alpha-equal terms are
          identical objects).

The normal form decides equality of tensor-contraction expressions (sums of
products of array elements), which is what GP algebra needs; inequalities and
Boolean structure go to z3 (prover.py).
"""
from fractions import Fraction
from itertools import permutations
import sys

sys.setrecursionlimit(100000)


class Unsupported(BaseException):
    """construct outside the reach of the extraction"""


# --------------------------------------------------------------------------
_atoms = {}
_ids = [0]


class Atom:
    __slots__ = ('kind', 'data', 'id', 'fv', 'height', 'sort', '__weakref__')

    def __repr__(self):
        return show(self)


class Lam:
    __slots__ = ('n', 'body', 'id', 'fv', 'height', 'bvs')

    def __repr__(self):
        return '(\\%s. %s)' % (','.join(show(b) for b in self.bvs), show(self.body))


def _new_id():
    _ids[0] += 1
    return _ids[0]


EMPTY = frozenset()


def _meta(data):
    fv = set()
    h = 0
    stack = [data]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, (Poly, Bool, Lam, Atom)):
            fv |= x.fv
            if x.height > h:
                h = x.height
    return fv, h


def mk(kind, data, sort='R'):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.data, a.sort = kind, data, sort
    a.id = _new_id()
    if kind == 'var' or kind == 'bv':
        a.fv = frozenset([a])
        a.height = 0
    else:
        fv, h = _meta(data)
        if kind == 'sum':
            nb, hh = data[0], data[1]
            fv -= set(bv(hh, i) for i in range(nb))
            h = max(h, hh)
        a.fv = frozenset(fv)
        a.height = h
    _atoms[key] = a
    return a


_bvc = {}


def bv(h, i):
    a = _bvc.get((h, i))
    if a is None:
        a = _bvc[(h, i)] = mk('bv', (h, i), 'I')
    return a


# --------------------------------------------------------------------------
# Poly.  A monomial is a tuple of (Atom, exponent) sorted by atom id.
class Poly:
    __slots__ = ('t', 'id', 'fv', 'height', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return poly(d)

    __radd__ = __add__

    def __neg__(self):
        return poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return poly({m: k * c for m, k in self.t})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        key = (self.id, o.id) if self.id <= o.id else (o.id, self.id)
        r = _mulc.get(key)
        if r is not None:
            return r
        d = {}
        special = None
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                r = mono_mul(m1, m2)
                if isinstance(r, tuple):
                    v = d.get(r, 0) + c1 * c2
                    if v == 0:
                        d.pop(r, None)
                    else:
                        d[r] = v
                else:
                    special = (special or ZERO) + r.scale(c1 * c2)
        r = poly(d)
        if special is not None:
            r = r + special
        _mulc[key] = r
        return r

    __rmul__ = __mul__

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def atom(self):
        """the atom if this Poly is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 \
                and self.t[0][0][0][1] == 1:
            return self.t[0][0][0][0]
        return None

    def is_int(self):
        for m, c in self.t:
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != 'I' or e < 0:
                    return False
        return True


_polys = {}
_mulc = {}


def poly(d):
    t = tuple(sorted(d.items(), key=_mkey))
    p = _polys.get(t)
    if p is not None:
        return p
    p = Poly()
    p.t = t
    p.id = _new_id()
    p._h = hash(p.id)
    fv = set()
    h = 0
    for m, c in t:
        for a, e in m:
            fv |= a.fv
            if a.height > h:
                h = a.height
    p.fv = frozenset(fv)
    p.height = h
    _polys[t] = p
    return p


def _mkey(item):
    return [(a.id, e) for a, e in item[0]]


ZERO = poly({})
ONE = poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return poly({(): Fraction(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)) if abs(x) < 1e300 else Fraction(x))
    raise Unsupported('cannot make a Poly of %r' % (x,))


def mono_mul(m1, m2):
    """product of two monomials -> monomial tuple, or Poly when a
    simplification produces a non-monomial"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return mono_norm(d)


def mono_norm(d):
    exps = [a for a in d if a.kind == 'fn' and a.data[0] == 'exp']
    extra = None
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        arg = ZERO
        for a in exps:
            arg = arg + a.data[1].scale(d.pop(a))
        extra = EXP(arg)
    out = []
    for a, e in d.items():
        if a.kind == 'iv':
            out.append((a, 1))
        elif a.kind == 'fn' and a.data[0] == 'sqrt' and (e >= 2 or e <= -2):
            q, r = divmod(e, 2)
            x = a.data[1]
            extra = (extra if extra is not None else ONE) * ppow(x, q)
            if r:
                out.append((a, r))
        elif a.kind == 'fn' and a.data[0] == 'abs' and abs(e) >= 2:
            q, r = divmod(e, 2)
            extra = (extra if extra is not None else ONE) * ppow(a.data[1], 2 * q)
            if r:
                out.append((a, r))
        elif a.kind == 'grp' and e > 0:
            extra = (extra if extra is not None else ONE) * ppow(a.data[0], e)
        else:
            out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    out = tuple(out)
    if extra is None:
        return out
    base = poly({out: Fraction(1)})
    # extra may re-introduce atoms, multiply again
    return base * extra


def ppow(p, n):
    """integer power"""
    if n == 0:
        return ONE
    if n < 0:
        return ppow(recip(p), -n)
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def lead(p):
    """canonical leading coefficient (used for sign/scale normalisation).
    Uses the monomial of smallest key that is not constant."""
    for m, c in p.t:
        if m != ():
            return c
    return p.t[0][1] if p.t else Fraction(1)


def mono_gcd(p):
    """common monomial content of a Poly (only plain positive powers)"""
    it = iter(p.t)
    m0, _ = next(it)
    g = dict(m0)
    for m, c in it:
        dm = dict(m)
        for a in list(g):
            e = dm.get(a, 0)
            e = min(e, g[a]) if (e > 0) == (g[a] > 0) else 0
            if g[a] < 0 and dm.get(a, 0) < 0:
                e = max(dm[a], g[a])
            if e == 0:
                del g[a]
            else:
                g[a] = e
        if not g:
            break
    return tuple(sorted(g.items(), key=lambda x: x[0].id))


def recip(p):
    c = p.const()
    if c is not None:
        if c == 0:
            # division by literal zero: an unconstrained but fixed value
            return P(mk('var', ('div0',), 'R'))
        return P(Fraction(1) / c)
    ivs = top_ivs(p)
    if ivs:
        return hoist1(ivs, [p], lambda q: recip(q))
    if len(p.t) == 1:
        m, c = p.t[0]
        d = {}
        extra = ONE
        for a, e in m:
            if a.kind == 'fn' and a.data[0] == 'exp':
                extra = extra * EXP(a.data[1].scale(-e))
            else:
                d[a] = -e
        r = mono_norm(d)
        r = poly({r: Fraction(1)}) if isinstance(r, tuple) else r
        return (r * extra).scale(Fraction(1) / c)
    g = mono_gcd(p)
    if g:
        gp = poly({g: Fraction(1)})
        gi = recip(gp)
        gd = dict(g)
        q = {}
        for m, c in p.t:
            d = dict(m)
            for a, e in gd.items():
                v = d.get(a, 0) - e
                if v:
                    d[a] = v
                else:
                    d.pop(a, None)
            m = tuple(sorted(d.items(), key=lambda x: x[0].id))
            q[m] = q.get(m, 0) + c
        return gi * recip(poly({m: c for m, c in q.items() if c}))
    k = lead(p)
    q = p.scale(Fraction(1) / k)
    return P(poly({((mk('grp', (q,)), -1),): Fraction(1) / k}))


# ---------------------------------------------------------------- functions
def top_ivs(*ps):
    """Iverson atoms occurring at the polynomial level of the given Polys"""
    s = {}
    for p in ps:
        if isinstance(p, Poly):
            for m, c in p.t:
                for a, e in m:
                    if a.kind == 'iv':
                        s[a] = 1
        elif isinstance(p, Lam) and isinstance(p.body, Poly):
            for m, c in p.body.t:
                for a, e in m:
                    if a.kind == 'iv' and not (a.fv & set(p.bvs)):
                        s[a] = 1
    return list(s)


def set_iv(p, a, val):
    """polynomial with Iverson atom a fixed to 0/1"""
    if isinstance(p, Lam):
        return lam_raw(p, set_iv(p.body, a, val))
    d = {}
    for m, c in p.t:
        if any(x is a for x, e in m):
            if val == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        d[m] = d.get(m, 0) + c
        if d[m] == 0:
            del d[m]
    return poly(d)


def hoist1(ivs, ps, f):
    a = ivs[0]
    p1 = [set_iv(p, a, 1) for p in ps]
    p0 = [set_iv(p, a, 0) for p in ps]
    r1 = f(*p1)
    r0 = f(*p0)
    if r1 is r0:
        return r1
    A = P(a)
    return A * r1 + (ONE - A) * r0


def fnapp(name, *args):
    ivs = top_ivs(*args)
    if ivs:
        return hoist1(ivs, list(args), lambda *q: fnapp(name, *q))
    h = _fn.get(name)
    if h:
        r = h(*args)
        if r is not None:
            return r
    return P(mk('fn', (name,) + tuple(args), 'I' if name == 'floor' else 'R'))


def EXP(p):
    return fnapp('exp', P(p))


def _exp(p):
    if not p.t:
        return ONE
    # exp(log(a)*k) with integer k
    if len(p.t) == 1:
        m, c = p.t[0]
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'fn' and m[0][0].data[0] == 'log':
            return ppow(m[0][0].data[1], int(c))
    return None


def _log(p):
    c = p.const()
    if c == 1:
        return ZERO
    a = p.atom()
    if a is not None and a.kind == 'fn' and a.data[0] == 'exp':
        return a.data[1]
    return None


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _sqrt(p):
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        m, c = p.t[0]
        out = ONE
        rest = {}
        changed = False
        if c > 0:
            n, dd = _isqrt(c.numerator), _isqrt(c.denominator)
            if n is not None and dd is not None:
                out = out.scale(Fraction(n, dd))
                if c != 1:
                    changed = True
                c = Fraction(1)
        for a, e in m:
            if a.kind == 'fn' and a.data[0] == 'exp':
                out = out * EXP(a.data[1].scale(Fraction(e, 2)))
                changed = True
            elif e % 2 == 0:
                b = fnapp('abs', ppow(P(a), abs(e) // 2))
                out = out * (b if e > 0 else recip(b))
                changed = True
            else:
                rest[a] = e
        if changed:
            if rest or c != 1:
                rm = tuple(sorted(rest.items(), key=lambda x: x[0].id))
                out = out * fnapp('sqrt', poly({rm: c}))
            return out
    return None


def nonneg(p):
    """cheap syntactic nonnegativity"""
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind == 'fn' and a.data[0] in ('exp', 'sqrt', 'abs', 'Phi', 'phi'):
                continue
            if a.kind == 'iv' or (a.kind == 'var' and a.data[0] in ('pi', 'INF')):
                continue
            if a.kind == 'var' and a.sort == 'I' and a in POSVARS:
                continue
            return False
    return True


POSVARS = set()


def _abs(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    k = lead(p)
    if k != 1:
        return fnapp('abs', p.scale(Fraction(1) / k)).scale(abs(k))
    return None


def _odd(name):
    def f(p):
        if not p.t:
            return ZERO
        if lead(p) < 0:
            return -fnapp(name, -p)
        return None
    return f


def _cos(p):
    if not p.t:
        return ONE
    if lead(p) < 0:
        return fnapp('cos', -p)
    return None


def _pow(b, e):
    c = e.const()
    if c is not None:
        if c.denominator == 1:
            return ppow(b, int(c))
        if c.denominator == 2:
            return ppow(fnapp('sqrt', b), int(c * 2))
    bc = b.const()
    if bc is not None and bc > 0:
        return EXP(fnapp('log', b) * e)
    return None


def _floor(p):
    c = p.const()
    if c is not None:
        import math
        return P(math.floor(c))
    if p.is_int():
        return p
    return None


_fn = {'exp': _exp, 'log': _log, 'sqrt': _sqrt, 'abs': _abs, 'sin': _odd('sin'),
       'cos': _cos, 'pow': _pow, 'floor': _floor,
       'phi': lambda p: fnapp('phi', -p) if (p.t and lead(p) < 0) else None}


def SQRT(p):
    return fnapp('sqrt', P(p))


PI = mk('var', ('pi',), 'R')
INF = mk('var', ('INF',), 'R')


def app(name, args, sort='R'):
    """uninterpreted application; args are Polys or Lams"""
    args = tuple(a if isinstance(a, Lam) else P(a) for a in args)
    ivs = top_ivs(*args)
    if ivs:
        return hoist1(ivs, list(args), lambda *q: app(name, q, sort))
    return P(mk('app', (name,) + args, sort))


_sizes = {}      # index var atom -> (lo Poly, hi Poly) exclusive hi
_uniq = [0]


def uvar(name='v', sort='I', lo=None, hi=None):
    _uniq[0] += 1
    a = mk('var', ('%s#%d' % (name, _uniq[0]),), sort)
    if hi is not None:
        _sizes[a] = (P(lo or 0), P(hi))
    return a


def var(name, sort='R'):
    return mk('var', (name,), sort)


# ------------------------------------------------------------------- Bools
class Bool:
    __slots__ = ('kind', 'data', 'id', 'fv', 'height')

    def __repr__(self):
        return show(self)

    def __invert__(self):
        return NOT(self)

    def __and__(self, o):
        return AND(self, o)

    def __or__(self, o):
        return OR(self, o)


_bools = {}
_nots = {}


def mkb(kind, data):
    b = _bools.get((kind, data))
    if b is not None:
        return b
    b = Bool()
    b.kind, b.data = kind, data
    b.id = _new_id()
    fv, h = _meta(data)
    b.fv = frozenset(fv)
    b.height = h
    _bools[(kind, data)] = b
    return b


TRUE = mkb('true', ())
FALSE = mkb('false', ())


def B(x):
    if isinstance(x, Bool):
        return x
    return TRUE if x else FALSE


def NOT(b):
    b = B(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.data[0]
    r = _nots.get(b)
    if r is not None:
        return r
    if b.kind == 'and':
        r = OR(*[NOT(x) for x in b.data])
    elif b.kind == 'or':
        r = AND(*[NOT(x) for x in b.data])
    else:
        r = mkb('not', (b,))
    _nots[b] = r
    return r


def AND(*bs):
    out = {}
    for b in bs:
        b = B(b)
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.data if b.kind == 'and' else (b,)):
            out[x] = 1
    for x in out:
        if NOT(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mkb('and', tuple(sorted(out, key=lambda x: x.id)))


def OR(*bs):
    out = {}
    for b in bs:
        b = B(b)
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.data if b.kind == 'or' else (b,)):
            out[x] = 1
    for x in out:
        if NOT(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mkb('or', tuple(sorted(out, key=lambda x: x.id)))


def IMPL(a, b):
    return OR(NOT(a), b)


def _simple_range(p):
    """(lo,hi) inclusive numeric/affine bounds cannot be computed in general;
    returns None"""
    return None


def LT0(p):
    """p < 0"""
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    ivs = top_ivs(p)
    if ivs:
        a = ivs[0]
        cnd = a.data[0]
        return OR(AND(cnd, LT0(set_iv(p, a, 1))), AND(NOT(cnd), LT0(set_iv(p, a, 0))))
    k = lead(p)
    q = p.scale(Fraction(1) / abs(k))
    if p.is_int():
        # integer: keep integer coefficients; p<0 ; canonical complement -p-1<0
        from math import gcd
        g = 0
        for m, c in p.t:
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            cst = Fraction(0)
            d = {}
            for m, c in p.t:
                if m == ():
                    cst = c
                else:
                    d[m] = c / g
            # g*x + cst < 0  <=> x < -cst/g <=> x + floor(cst/g)... x <= ceil(-cst/g)-1
            import math
            bound = math.ceil(-cst / g) - 1      # x <= bound
            d[()] = Fraction(-bound - 1)
            if d[()] == 0:
                del d[()]
            p = poly(d)
            c = p.const()
            if c is not None:
                return TRUE if c < 0 else FALSE
        r = _range_decide(p)
        if r is not None:
            return r
        if lead(p) < 0:
            return mkb('not', (mkb('lt', (-p - ONE,)),)) if True else None
        return mkb('lt', (p,))
    if k < 0:
        # -q < 0 ...  represent as not(q <= 0) : keep 'le' complement
        return mkb('not', (mkb('le', (-q,)),))
    return mkb('lt', (q,))


def LE0(p):
    """p <= 0"""
    if p.is_int():
        return LT0(p - ONE)
    return NOT(LT0(-p))


# For reals, lt(q) with lead>0:  q<0 ; le(q) with lead>0: q<=0.
# LT0(-q) = not le(q);  LE0(q) = not LT0(-q) = le(q);  LE0(-q)= not LT0(q)= not lt(q)

def EQ0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    ivs = top_ivs(p)
    if ivs:
        a = ivs[0]
        cnd = a.data[0]
        return OR(AND(cnd, EQ0(set_iv(p, a, 1))), AND(NOT(cnd), EQ0(set_iv(p, a, 0))))
    k = lead(p)
    q = p.scale(Fraction(1) / k)
    if p.is_int():
        r = _range_decide_eq(p)
        if r is not None:
            return r
    return mkb('eq', (q,))


def _affine_bounds(p):
    """interval bounds of an int poly as Polys using declared index ranges:
    returns list of candidate upper bound polys (p <= ub)"""
    ub = p
    for _ in range(6):
        done = True
        for m, c in ub.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in _sizes:
                a = m[0][0]
                lo, hi = _sizes[a]
                rep = (hi - ONE) if c > 0 else lo
                ub = ub - P(a).scale(c) + rep.scale(c)
                done = False
                break
        if done:
            return ub
    return ub


def _nonpos_syntactic(p):
    """p <= 0 evident: every monomial has nonneg value and coef <= 0"""
    for m, c in p.t:
        if c > 0:
            return False
        for a, e in m:
            if not (a in POSVARS or e % 2 == 0 or a.kind == 'iv'):
                return False
    return True


def _range_decide(p):
    ub = _affine_bounds(p)
    if _nonpos_syntactic(ub + ONE):
        return TRUE
    # using dims >= 1: replace each positive dim var with coefficient<0 by 1
    def dims1(q):
        s = Fraction(0)
        for m, c in q.t:
            if m == ():
                s += c
            elif c < 0 and all(a in POSVARS for a, e in m):
                s += c
            else:
                return None
        return s
    s = dims1(ub)
    if s is not None and s < 0:
        return TRUE
    lbn = _affine_bounds(-p)           # -p <= lbn
    if _nonpos_syntactic(lbn):
        return FALSE
    s = dims1(lbn)
    if s is not None and s <= 0:
        return FALSE
    return None


def _range_decide_eq(p):
    if _range_decide_strict(p) or _range_decide_strict(-p):
        return FALSE
    return None


def _range_decide_strict(p):
    return _range_decide(p) is TRUE


def LT(a, b):
    return LT0(P(a) - P(b))


def LE(a, b):
    return LE0(P(a) - P(b))


def EQ(a, b):
    return EQ0(P(a) - P(b))


def IV(b):
    b = B(b)
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.kind == 'not':
        return ONE - IV(b.data[0])
    if b.kind == 'and':
        r = ONE
        for x in b.data:
            r = r * IV(x)
        return r
    if b.kind == 'or':
        r = ONE
        for x in b.data:
            r = r * (ONE - IV(x))
        return ONE - r
    return P(mk('iv', (b,), 'I'))


def ITE(c, a, b):
    a, b = P(a), P(b)
    if a is b:
        return a
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    i = IV(c)
    return i * a + (ONE - i) * b


def FORALL(vs, body):
    """vs: list of int var atoms; body Bool"""
    body = B(body)
    vs = [v for v in vs if v in body.fv]
    if not vs or body.kind in ('true', 'false'):
        return body
    return mkb('forall', (lam(vs, body),))


def EXISTS(vs, body):
    return NOT(FORALL(vs, NOT(body)))


# -------------------------------------------------------------------- Lam
_lams = {}


def lam(vs, body):
    """close body over var atoms vs (order given)"""
    h = body.height + 1
    bvs = [bv(h, i) for i in range(len(vs))]
    b = subst(body, {v: P(x) for v, x in zip(vs, bvs)})
    # height may differ after canonicalisation; recompute
    while b.height + 1 != h:
        h2 = max(b.height, body.height) + 1
        if h2 == h:
            break
        h = h2
        bvs = [bv(h, i) for i in range(len(vs))]
        b = subst(body, {v: P(x) for v, x in zip(vs, bvs)})
    return _mklam(bvs, b)


def _mklam(bvs, b):
    key = (tuple(bvs), b)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.n = len(bvs)
        l.body = b
        l.bvs = tuple(bvs)
        l.id = _new_id()
        l.fv = b.fv - set(bvs)
        l.height = bvs[0].data[0] if bvs else b.height
        _lams[key] = l
    return l


def lam_raw(l, body):
    """replace the body of l (same bound variables in scope)"""
    vs = [uvar('o') for _ in l.bvs]
    b = subst(body, {x: P(v) for x, v in zip(l.bvs, vs)})
    return lam(vs, b)


def inst(l, args):
    return subst(l.body, {x: P(a) for x, a in zip(l.bvs, args)})


# ------------------------------------------------------------ substitution
_substc = {}


def subst(x, mp):
    """substitute var/bv atoms by Polys in Poly/Bool/Lam"""
    if not mp:
        return x
    keys = x.fv & mp.keys()
    if not keys:
        return x
    if len(keys) != len(mp):
        mp = {k: mp[k] for k in keys}
    ck = (x.id, tuple(sorted((k.id, v.id) for k, v in mp.items())))
    r = _substc.get(ck)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t:
            t = P(c)
            keep = []
            for a, e in m:
                if a.fv & mp.keys():
                    s = subst_atom(a, mp)
                    t = t * (ppow(s, e))
                else:
                    keep.append((a, e))
            if keep:
                t = t * poly({tuple(keep): Fraction(1)})
            r = r + t
    elif isinstance(x, Lam):
        vs = [uvar('o') for _ in x.bvs]
        b = subst(x.body, dict(mp, **{}) | {bb: P(v) for bb, v in zip(x.bvs, vs)})
        r = lam(vs, b)
    else:
        r = subst_bool(x, mp)
    _substc[ck] = r
    return r


_names_c = {}


def hnames(x):
    """names of uninterpreted applications (starting with '$h') in a term"""
    r = _names_c.get(x.id)
    if r is not None:
        return r
    out = set()
    if isinstance(x, Poly):
        for m, c in x.t:
            for a, e in m:
                out |= hnames(a)
    elif isinstance(x, Lam):
        out |= hnames(x.body)
    else:
        if isinstance(x, Atom) and x.kind == 'app' and x.data[0].startswith('$h'):
            out.add(x.data[0])
        elif isinstance(x, Atom) and x.kind == 'en':
            out.add('!en')
        st = list(x.data)
        while st:
            z = st.pop()
            if isinstance(z, tuple):
                st.extend(z)
            elif isinstance(z, (Poly, Bool, Lam, Atom)):
                out |= hnames(z)
    r = _names_c[x.id] = frozenset(out)
    return r


def rewrite(x, mp, cache=None):
    """replace applications: mp[name](args)->Poly (or None to keep)"""
    if not (hnames(x) & mp.keys()):
        return x
    if cache is None:
        cache = {}
    r = cache.get(x.id)
    if r is not None:
        return r
    R = lambda z: rewrite(z, mp, cache)
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t:
            t = P(c)
            for a, e in m:
                t = t * ppow(rewrite_atom(a, mp, R), e)
            r = r + t
    elif isinstance(x, Lam):
        vs = [uvar('o') for _ in x.bvs]
        r = lam(vs, R(subst(x.body, {b: P(v) for b, v in zip(x.bvs, vs)})))
    else:
        k, d = x.kind, x.data
        if k == 'lt':
            r = LT0(R(d[0]))
        elif k == 'le':
            r = LE0(R(d[0]))
        elif k == 'eq':
            r = EQ0(R(d[0]))
        elif k == 'not':
            r = NOT(R(d[0]))
        elif k == 'and':
            r = AND(*[R(z) for z in d])
        elif k == 'or':
            r = OR(*[R(z) for z in d])
        elif k == 'forall':
            r = mkb('forall', (R(d[0]),))
        elif k == 'bapp':
            r = mkb('bapp', (d[0],) + tuple(R(z) if isinstance(z, (Poly, Bool, Lam)) else z for z in d[1:]))
        else:
            raise Unsupported('rewrite ' + k)
    cache[x.id] = r
    return r


def rewrite_atom(a, mp, R):
    if not (hnames(a) & mp.keys()):
        return P(a)
    k = a.kind
    if k == 'app':
        args = [R(z) for z in a.data[1:]]
        if a.data[0] in mp:
            r = mp[a.data[0]](args)
            if r is not None:
                return r
        return app(a.data[0], args, a.sort)
    if k == 'fn':
        return fnapp(a.data[0], *[R(z) for z in a.data[1:]])
    if k == 'grp':
        return ppow(R(a.data[0]), 1)
    if k == 'iv':
        return IV(R(a.data[0]))
    if k == 'sum':
        vs, sizes, factors = open_sum(a)
        r = R(factors)
        for v, s in zip(vs, sizes):
            r = SUM(v, R(s), r)
        return r
    if k == 'mat':
        kind, l, n, i, j = a.data
        return MAT(kind, R(l), R(n), R(i), R(j))
    if k == 'amin':
        return AMIN(R(a.data[0]), tuple(R(s) for s in a.data[1]), a.data[2])
    if k == 'prod':
        return PRODL(R(a.data[0]), R(a.data[1]))
    if k == 'en':
        return ENUM(a.data[0], R(a.data[1]), R(a.data[2]), *[R(z) for z in a.data[3:]])
    raise Unsupported('rewrite ' + k)


def subst_any(x, mp):
    if isinstance(x, (Poly, Bool, Lam)):
        return subst(x, mp)
    return x


def subst_atom(a, mp):
    k = a.kind
    if k in ('var', 'bv'):
        return mp.get(a) if a in mp else P(a)
    if k == 'app':
        return app(a.data[0], [subst(z, mp) for z in a.data[1:]], a.sort)
    if k == 'fn':
        return fnapp(a.data[0], *[subst(z, mp) for z in a.data[1:]])
    if k == 'grp':
        return ppow(subst(a.data[0], mp), 1)
    if k == 'iv':
        return IV(subst(a.data[0], mp))
    if k == 'sum':
        vs, sizes, factors = open_sum(a)
        # substitute in sizes and factors, then rebuild
        body = subst(factors, mp)
        r = body
        for v, s in zip(vs, sizes):
            r = SUM(v, subst(s, mp), r)
        return r
    if k == 'mat':
        kind, l, n, i, j = a.data
        return MAT(kind, subst(l, mp), subst(n, mp), subst(i, mp), subst(j, mp))
    if k == 'amin':
        return AMIN(subst(a.data[0], mp), tuple(subst(s, mp) for s in a.data[1]), a.data[2])
    if k == 'prod':
        return PRODL(subst(a.data[0], mp), subst(a.data[1], mp))
    if k == 'en':
        return ENUM(a.data[0], subst(a.data[1], mp), subst(a.data[2], mp),
                    *[subst(z, mp) for z in a.data[3:]])
    raise Unsupported('subst ' + k)


def subst_bool(b, mp):
    k = b.kind
    d = b.data
    if k == 'lt':
        return LT0(subst(d[0], mp))
    if k == 'le':
        return LE0(subst(d[0], mp))
    if k == 'eq':
        return EQ0(subst(d[0], mp))
    if k == 'not':
        return NOT(subst(d[0], mp))
    if k == 'and':
        return AND(*[subst(x, mp) for x in d])
    if k == 'or':
        return OR(*[subst(x, mp) for x in d])
    if k == 'forall':
        return mkb('forall', (subst(d[0], mp),))
    if k == 'bapp':
        return mkb('bapp', (d[0],) + tuple(subst_any(x, mp) for x in d[1:]))
    raise Unsupported('subst ' + k)


# ------------------------------------------------------------------- sums
EXPAND = 24


def open_sum(a):
    """returns (vars, sizes, factors Poly)"""
    nb, h, sizes, mono = a.data
    vs = [uvar('s', 'I', 0, None) for _ in range(nb)]
    mp = {bv(h, i): P(v) for i, v in enumerate(vs)}
    sz = [subst(s, mp) for s in sizes]
    for v, s in zip(vs, sz):
        _sizes[v] = (ZERO, s)
    f = subst(poly({mono: Fraction(1)}), mp)
    return vs, sz, f


def in_range(e, n):
    """Bool list of conditions for 0<=e<n that are not evident"""
    conds = []
    c = LT0(e)
    if c is not FALSE:
        conds.append(NOT(c))
    c = LT(e, n)
    if c is not TRUE:
        conds.append(c)
    return conds


def SUM(v, n, p):
    """sum over int var atom v in [0,n) of Poly p"""
    n = P(n)
    c = n.const()
    if c is not None and c <= EXPAND:
        r = ZERO
        for q in range(int(c)):
            r = r + subst(p, {v: P(q)})
        return r
    if v not in p.fv:
        return n * p
    _sizes[v] = (ZERO, n)
    r = ZERO
    for m, c in p.t:
        # split
        inn, out = [], []
        for a, e in m:
            (inn if v in a.fv else out).append((a, e))
        outp = poly({tuple(out): c})
        if not inn:
            r = r + outp * n
            continue
        r = r + outp * _contract([(v, n)], inn)
    return r


def _contract(bound, factors):
    """sum over bound [(v,n)] of product of factors [(atom,e)] -> Poly"""
    bound = list(bound)
    coef = Fraction(1)
    # open nested sum atoms that mention bound variables
    flat = []
    for a, e in factors:
        if a.kind == 'sum' and e > 0:
            for _ in range(e):
                vs, szs, f = open_sum(a)
                if len(f.t) != 1:
                    raise Unsupported('sum opens to a non-monomial')
                (m, c), = f.t
                coef *= c
                for v, s in zip(vs, szs):
                    bound.append((v, s))
                flat.extend(m)
        else:
            flat.append((a, e))
    d = {}
    for a, e in flat:
        d[a] = d.get(a, 0) + e
    m = mono_norm(d)
    if not isinstance(m, tuple):
        r = m
        for v, n in bound:
            r = SUM(v, n, r)
        return r.scale(coef)
    return _contract2(bound, m).scale(coef)


def _resum(bound, p):
    r = p
    for v, n in bound:
        r = SUM(v, n, r)
    return r


def _contract2(bound, m):
    bset = {v: n for v, n in bound}
    # 1. delta elimination
    for a, e in m:
        if a.kind == 'iv' and a.data[0].kind == 'eq':
            q = a.data[0].data[0]
            for v, n in bound:
                cf = None
                ok = True
                for mm, c in q.t:
                    for x, ee in mm:
                        if v in x.fv:
                            if x is v and ee == 1 and len(mm) == 1:
                                cf = c
                            else:
                                ok = False
                if cf is None or not ok:
                    continue
                sol = P(v) - q.scale(Fraction(1) / cf)   # v = sol
                if not sol.is_int():
                    continue
                rest = poly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                rest = subst(rest, {v: sol})
                for cnd in in_range(sol, n):
                    rest = rest * IV(cnd)
                return _resum([(w, nn) for w, nn in bound if w is not v], rest)
    # 2. range restriction [v < e] with e <= n : shrink the sum
    for a, e in m:
        if a.kind == 'iv' and a.data[0].kind == 'lt':
            q = a.data[0].data[0]
            for v, n in bound:
                cf = None
                ok = True
                for mm, c in q.t:
                    for x, ee in mm:
                        if v in x.fv:
                            if x is v and ee == 1 and len(mm) == 1:
                                cf = c
                            else:
                                ok = False
                if cf is None or not ok or abs(cf) != 1:
                    continue
                rest = poly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                others = [(w, nn) for w, nn in bound if w is not v]
                if any(v in nn.fv for _, nn in others):
                    continue
                if cf == 1:
                    lim = P(v) - q          # v < lim
                    if LE(lim, n) is TRUE and LT0(lim) is FALSE:
                        w = uvar('s')
                        return _resum(others, SUM(w, lim, subst(rest, {v: P(w)})))
                else:
                    lo = q + P(v) + ONE     # -v + b < 0 -> v > b -> v >= b+1
                    if LT0(lo) is FALSE and LE(lo, n) is TRUE:
                        w = uvar('s')
                        return _resum(others, SUM(w, n - lo, subst(rest, {v: P(w) + lo})))
    # 3. Cholesky / inverse rules
    for v, n in bound:
        if any(v in nn.fv for w, nn in bound if w is not v):
            continue
        occ = [(a, e) for a, e in m if v in a.fv]
        mats = [(a, e) for a, e in occ if a.kind == 'mat']
        tot = sum(abs(e) if a.kind == 'mat' else 1 for a, e in occ)
        if not mats:
            continue
        if sum(e for a, e in occ) == 2 and len(mats) == len(occ) and len(occ) <= 2:
            seq = []
            for a, e in mats:
                seq += [a] * e
            r = _mat_pair(v, n, seq[0], seq[1])
            if r is not None:
                rest = poly({tuple(x for x in m if v not in x[0].fv): Fraction(1)})
                return _resum([(w, nn) for w, nn in bound if w is not v], rest * r)
        # INV * leading atom of K
        for a, e in mats:
            if a.data[0] != 'INV' or e != 1:
                continue
            others = [(x, ee) for x, ee in occ if x is not a]
            r = _inv_fold(v, n, a, others)
            if r is not None:
                rest = poly({tuple(x for x in m if v not in x[0].fv): Fraction(1)})
                return _resum([(w, nn) for w, nn in bound if w is not v], rest * r)
    # 4. connected components
    comps = _components(bound, m)
    res = ONE
    for bs, fs in comps:
        if not fs:
            for v, n in bs:
                res = res * n
            continue
        if not bs:
            res = res * poly({tuple(sorted(fs, key=lambda x: x[0].id)): Fraction(1)})
            continue
        res = res * _canon(bs, fs)
    return res


def _mat_pair(v, n, a, b):
    """sum_v a*b for matrix atoms"""
    for x, y in ((a, b), (b, a)):
        kx, lx, nx, ix, jx = x.data
        ky, ly, ny, iy, jy = y.data
        if lx is not ly or nx is not ny or nx is not n:
            continue
        V = P(v)
        if kx == 'ICH' and ky == 'ICH' and ix is V and iy is V \
                and v not in jx.fv and v not in jy.fv:
            return MAT('INV', lx, nx, jx, jy)
        if kx == 'CH' and ky == 'CH' and jx is V and jy is V \
                and v not in ix.fv and v not in iy.fv:
            return inst(lx, [ix, iy])
        if {kx, ky} == {'ICH', 'CH'}:
            # L^-1 L = L L^-1 = I
            if jx is V and iy is V and v not in ix.fv and v not in jy.fv:
                return IV(EQ(ix, jy))
        if kx == 'CH' and ky == 'INV':
            # sum_v CH(v,q) INV(v,r) = ICH(q,r)
            if ix is V and v not in jx.fv:
                o = jy if iy is V else iy if jy is V else None
                if o is not None and v not in o.fv:
                    return MAT('ICH', lx, nx, jx, o)
    return None


def _inv_fold(v, n, a, others):
    kind, l, nn, i, j = a.data
    if nn is not n:
        return None
    V = P(v)
    o = j if i is V else i if j is V else None
    if o is None or v in o.fv:
        return None
    # leading monomial of K: choose the non-Iverson monomial with exp atoms
    key = lead_mono(l)
    if key is None:
        return None
    km, kc = key
    # match: others == km instantiated with (v, b) for some b
    b = match_lead(l, km, v, others)
    if b is None:
        return None
    # sum_v INV(o,v) * K(v,b) = [o==b]
    # sum_v INV(o,v)*kc*lead(v,b) = [o==b] - sum_v INV(o,v)*(K-lead)(v,b)
    Kfull = inst(l, [V, b])
    leadp = poly({tuple(sorted(others, key=lambda x: x[0].id)): kc})
    rest = Kfull - leadp
    conds = in_range(b, n)
    if conds:
        return None
    return (IV(EQ(o, b)) - SUM(v, n, P(a) * rest)).scale(Fraction(1) / kc)


def lead_mono(l):
    best = None
    for m, c in l.body.t:
        if any(x.kind == 'iv' for x, e in m):
            continue
        if not all(bb in set().union(*[x.fv for x, e in m]) if m else False for bb in l.bvs):
            continue
        if m and all(e == 1 for x, e in m):
            if best is not None:
                return None
            best = (m, c)
    return best


def match_lead(l, km, v, others):
    """find b with others == km[bv0:=v,bv1:=b]"""
    if any(e != 1 for _, e in others) or len(others) != len(km):
        return None
    ats = sorted(x.id for x, _ in others)
    cand = set()
    for at, _ in others:
        _match_collect(km[0][0], at, l.bvs, cand)
    mono = poly({tuple(km): Fraction(1)})
    for b in sorted(cand, key=lambda x: x.id):
        if v in b.fv:
            continue
        r = subst(mono, {l.bvs[0]: P(v), l.bvs[1]: b})
        if len(r.t) == 1 and r.t[0][1] == 1 and sorted(x.id for x, e in r.t[0][0] for _ in range(e)) == ats:
            return b
    return None


def _index_terms(x, out, depth=0):
    """collect all int argument Polys of apps in term x"""
    if isinstance(x, Poly):
        for m, c in x.t:
            for a, e in m:
                _index_terms(a, out)
    elif isinstance(x, Atom):
        if x.kind == 'app':
            for z in x.data[1:]:
                if isinstance(z, Poly) and z.is_int():
                    out.add(z)
                _index_terms(z, out)
        elif x.kind in ('fn', 'grp'):
            for z in x.data:
                if isinstance(z, (Poly, Lam)):
                    _index_terms(z, out)
        elif x.kind == 'sum':
            _index_terms(poly({x.data[3]: Fraction(1)}), out)
        elif x.kind == 'iv':
            _index_terms(x.data[0], out)
        elif x.kind == 'mat':
            out.add(x.data[3])
            out.add(x.data[4])
    elif isinstance(x, Lam):
        _index_terms(x.body, out)
    elif isinstance(x, Bool):
        for z in x.data:
            if isinstance(z, (Poly, Bool, Lam)):
                _index_terms(z, out)


def _match_collect(pa, at, bvs, cand):
    out = set()
    _index_terms(at, out)
    for p in out:
        if not any(x.kind == 'bv' for x in p.fv):
            cand.add(p)


def _components(bound, m):
    bs = [v for v, _ in bound]
    size = dict(bound)
    parent = {v: v for v in bs}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x

    def union(xs):
        r = None
        for x in xs:
            f = find(x)
            if r is None:
                r = f
            else:
                parent[f] = r
    for a, e in m:
        union([v for v in bs if v in a.fv])
    for v in bs:
        union([v] + [w for w in bs if w in size[v].fv])
    groups = {}
    for v in bs:
        groups.setdefault(find(v), ([], []))[0].append((v, size[v]))
    rest = []
    for a, e in m:
        vs = [v for v in bs if v in a.fv]
        if vs:
            groups[find(vs[0])][1].append((a, e))
        else:
            rest.append((a, e))
    out = list(groups.values())
    if rest:
        out.append(([], rest))
    return out


_sigc = {}


def _canon(bs, fs):
    """canonical sum atom of a connected component"""
    nb = len(bs)
    fp = poly({tuple(sorted(fs, key=lambda x: x[0].id)): Fraction(1)})
    h = max([fp.height] + [n.height for _, n in bs]) + 1
    bvs = [bv(h, i) for i in range(nb)]
    if nb == 1:
        return _build_sum(h, bs, fs, (0,), bvs)
    # colour refinement
    star = uvar_star()
    star2 = uvar_star(2)
    vs = [v for v, _ in bs]
    color = {}
    for v, n in bs:
        color[v] = 0
    cols = [ _col_atom(i) for i in range(nb) ]
    for rnd in range(nb + 1):
        sig = {}
        for v, n in bs:
            s = []
            for a, e in fs:
                if v in a.fv:
                    mp = {w: P(cols[color[w]]) for w in vs if w in a.fv}
                    mp[v] = P(star)
                    s.append((subst(P(a), mp).id, e))
            s.sort()
            mp = {w: P(cols[color[w]]) for w in vs if w in n.fv}
            sig[v] = (color[v], subst(n, mp).id, tuple(s))
        ranks = {s: i for i, s in enumerate(sorted(set(sig.values())))}
        # colour index = number of elements with smaller rank
        new = {v: sum(1 for w in vs if ranks[sig[w]] < ranks[sig[v]]) for v in vs}
        if new == color:
            break
        color = new
    groups = {}
    for i, (v, n) in enumerate(bs):
        groups.setdefault(color[v], []).append(i)
    best = None
    import itertools
    gs = [groups[c] for c in sorted(groups)]
    cnt = 1
    for g in gs:
        for k in range(2, len(g) + 1):
            cnt *= k
    if cnt > 5000:
        gs2 = [[tuple(g)] for g in gs]
    else:
        gs2 = [list(permutations(g)) for g in gs]
    for combo in itertools.product(*gs2):
        order = [i for g in combo for i in g]
        r = _build_sum(h, bs, fs, order, bvs, key=True)
        if best is None or r[0] < best[0]:
            best = r
    return best[1]


_stars = {}


def uvar_star(k=1):
    if k not in _stars:
        _stars[k] = mk('var', ('*%d' % k,), 'I')
    return _stars[k]


def _col_atom(i):
    return mk('var', ('*c%d' % i,), 'I')


def _build_sum(h, bs, fs, order, bvs, key=False):
    mp = {bs[i][0]: P(bvs[pos]) for pos, i in enumerate(order)}
    f = ONE
    for a, e in fs:
        f = f * ppow(subst_atom(a, mp), e)
    if len(f.t) != 1:
        raise Unsupported('sum canonicalisation produced a non-monomial: %s' % show(f))
    sizes = tuple(subst(bs[i][1], mp) for i in order)
    mono = f.t[0][0]
    r = P(mk('sum', (len(bs), h, sizes, mono), 'I' if all(a.sort == 'I' and e > 0 for a, e in mono) else 'R')).scale(f.t[0][1])
    if key:
        return (tuple(s.id for s in sizes) + tuple((a.id, e) for a, e in mono).__class__(
            x for y in mono for x in (y[0].id, y[1])), r)
    return r


# ------------------------------------------------------------- products
def PROD(v, n, p):
    n = P(n)
    c = n.const()
    if c is not None and c <= EXPAND:
        r = ONE
        for q in range(int(c)):
            r = r * subst(p, {v: P(q)})
        return r
    _sizes[v] = (ZERO, n)
    if len(p.t) == 1 and p.t[0][1] == 1:
        # multiplicative: split factors
        r = ONE
        for a, e in p.t[0][0]:
            if a.kind == 'fn' and a.data[0] == 'exp':
                r = r * EXP(SUM(v, n, a.data[1].scale(e)))
            else:
                r = r * ppow(PRODL(lam([v], P(a)), n), e)
        return r
    return PRODL(lam([v], p), n)


def PRODL(l, n):
    ivs = top_ivs(l)
    if ivs:
        return hoist1(ivs, [l], lambda q: PRODL(q, n))
    c = n.const()
    if c is not None and c <= EXPAND:
        r = ONE
        for q in range(int(c)):
            r = r * inst(l, [P(q)])
        return r
    return P(mk('prod', (l, n)))


# ------------------------------------------------------------- matrices
SYMM = {'INV'}


def MAT(kind, l, n, i, j):
    """element (i,j) of INV(K)/CH(K)/ICH(K) for K = lam l of size n
    (INVG: inverse of a general, possibly unsymmetric matrix)"""
    n, i, j = P(n), P(i), P(j)
    ivs = top_ivs(l, i, j)
    if ivs:
        return hoist1(ivs, [l, i, j], lambda L, I, J: MAT(kind, L, n, I, J))
    if n is ONE:
        k = inst(l, [ZERO, ZERO])
        if kind in ('INV', 'INVG'):
            return recip(k)
        if kind == 'CH':
            return SQRT(k)
        if kind == 'ICH':
            return recip(SQRT(k))
    if kind in SYMM and i.id > j.id:
        i, j = j, i
    return P(mk('mat', (kind, l, n, i, j)))


def AMIN(l, sizes, which):
    """index (component `which`) of the first minimum of lam l over box sizes"""
    ivs = top_ivs(l)
    if ivs:
        return hoist1(ivs, [l], lambda L: AMIN(L, sizes, which))
    sizes = tuple(P(s) for s in sizes)
    if sizes[which] is ONE:
        return ZERO
    return P(mk('amin', (l, sizes, which), 'I'))


def ENUM(kind, l, n, *args):
    """enumeration of the true positions of a boolean mask lam l over [0,n):
    'EN'(q): the q-th true position, 'RK'(i): its inverse, 'CARD': count"""
    ivs = top_ivs(l, *[P(a) for a in args])
    if ivs and args:
        return hoist1(ivs, [l] + [P(a) for a in args], lambda L, *A: ENUM(kind, L, n, *A))
    if args:
        # EN enumerates [0,n) with the true positions first; RK is its inverse
        x = P(args[0]).atom()
        if x is not None and x.kind == 'en' and x.data[1] is l and x.data[2] is P(n) and \
                {kind, x.data[0]} == {'EN', 'RK'}:
            return x.data[3]
    return P(mk('en', (kind, l, P(n)) + tuple(P(a) for a in args), 'I'))


# ------------------------------------------------------------- printing
def show(x, depth=0):
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        s = []
        for m, c in x.t:
            f = '*'.join(show(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not f:
                s.append(str(c))
            elif c == 1:
                s.append(f)
            else:
                s.append('%s*%s' % (c, f))
        return ' + '.join(s)
    if isinstance(x, Lam):
        return repr(x)
    if isinstance(x, Bool):
        if x.kind in ('lt', 'le', 'eq'):
            return '(%s %s 0)' % (show(x.data[0]), {'lt': '<', 'le': '<=', 'eq': '='}[x.kind])
        if x.kind == 'not':
            return '!' + show(x.data[0])
        if x.kind in ('and', 'or'):
            return '(' + (' & ' if x.kind == 'and' else ' | ').join(show(y) for y in x.data) + ')'
        if x.kind == 'forall':
            return 'A' + show(x.data[0])
        return x.kind + str([show(y) if not isinstance(y, str) else y for y in x.data])
    k = x.kind
    if k == 'var':
        return x.data[0]
    if k == 'bv':
        return '_%d.%d' % x.data
    if k == 'app':
        return '%s(%s)' % (x.data[0], ','.join(show(z) for z in x.data[1:]))
    if k == 'fn':
        return '%s(%s)' % (x.data[0], ','.join(show(z) for z in x.data[1:]))
    if k == 'grp':
        return '{%s}' % show(x.data[0])
    if k == 'iv':
        return '[%s]' % show(x.data[0])
    if k == 'sum':
        return 'Sum<%s>(%s)' % (','.join(show(s) for s in x.data[2]),
                                show(poly({x.data[3]: Fraction(1)})))
    if k == 'mat':
        return '%s%d(%s,%s)' % (x.data[0], x.data[1].id, show(x.data[3]), show(x.data[4]))
    if k == 'amin':
        return 'argmin%d(%s)' % (x.data[2], show(x.data[0]))
    if k == 'prod':
        return 'Prod<%s>(%s)' % (show(x.data[1]), show(x.data[0]))
    if k == 'en':
        return '%s[%s](%s)' % (x.data[0], show(x.data[1]), ','.join(show(z) for z in x.data[3:]))
    return k


def is_zero(p):
    """decide p == 0 with cross multiplication of top-level reciprocals"""
    for _ in range(12):
        if not p.t:
            return True
        g = None
        for m, c in p.t:
            for a, e in m:
                if e < 0:
                    g = (a, e)
                    break
            if g:
                break
        if g is None:
            return False
        a = g[0]
        # largest negative power
        mx = max(-e for m, c in p.t for x, e in m if x is a and e < 0)
        base = a.data[0] if a.kind == 'grp' else P(a)
        r = ZERO
        bp = {i: ppow(base, i) for i in range(mx + 1)}
        for m, c in p.t:
            e = 0
            rest = []
            for x, ee in m:
                if x is a and ee < 0:
                    e = -ee
                else:
                    rest.append((x, ee))
            r = r + poly({tuple(rest): c}) * bp[mx - e]
        p = r
    return not p.t
