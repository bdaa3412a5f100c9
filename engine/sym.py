"""Symbolic values: scalars (SNum), booleans (SBool), arrays (SArr over Buf)
and lists (SList).  Shapes may be symbolic; array contents are functions from
index terms to terms; views share their Buf (numpy aliasing semantics)."""
from fractions import Fraction
import ctx as CX
import ir
from ir import *


def to_poly(x):
    if isinstance(x, SNum):
        return x.p
    if isinstance(x, Poly):
        return x
    if isinstance(x, SBool):
        return IV(x.b)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, SArr):
        if all(s is ONE for s in x.shape):
            return x.at(*[ZERO] * len(x.shape))
        raise TypeError('only size-1 arrays can be converted to scalars')
    if isinstance(x, InfT):
        return P(INF) if x.sign > 0 else -P(INF)
    if isinstance(x, (int, Fraction, float)):
        return P(x)
    if hasattr(x, 'item') and not isinstance(x, type):
        try:
            return P(x.item())
        except Exception:
            pass
    raise TypeError('not a number: %r' % (x,))


def to_bool(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (SNum, int, Fraction, Poly)):
        return NOT(EQ0(to_poly(x)))
    if isinstance(x, SArr) and all(s is ONE for s in x.shape):
        return to_bool(x.rawat([ZERO] * len(x.shape)))
    raise TypeError('not a bool: %r' % (x,))


def W(p):
    """wrap: dims/ints become python ints when constant"""
    c = p.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return SNum(p)


def wrapv(v):
    if isinstance(v, Bool):
        return SBool(v)
    if isinstance(v, Poly):
        return SNum(v)
    return v


def isnum(x):
    return isinstance(x, (int, Fraction, float, SNum, InfT)) or type(x).__name__ in ('float64', 'int64', 'float32')


class InfT:
    """+-infinity / the IEEE value, only compared or used as an initial best"""
    __slots__ = ('sign',)

    def __init__(self, sign=1):
        self.sign = sign

    def __neg__(self):
        return InfT(-self.sign)

    def _cmp(self, o):
        if isinstance(o, InfT):
            return (self.sign > o.sign) - (self.sign < o.sign)
        if isinstance(o, SNum) and INF in o.p.fv:
            return None
        return self.sign

    def _c(self, o, f):
        if isinstance(o, SArr):
            return NotImplemented
        c = self._cmp(o)
        if c is None:
            a, b = to_poly(self), to_poly(o)
            return SBool(f[1](a, b))
        return f[0](c)

    def __lt__(self, o):
        return self._c(o, (lambda c: c < 0, LT))

    def __le__(self, o):
        return self._c(o, (lambda c: c <= 0, LE))

    def __gt__(self, o):
        return self._c(o, (lambda c: c > 0, lambda a, b: LT(b, a)))

    def __ge__(self, o):
        return self._c(o, (lambda c: c >= 0, lambda a, b: LE(b, a)))

    def __eq__(self, o):
        if isinstance(o, (str, type(None))):
            return False
        return self._c(o, (lambda c: c == 0, EQ))

    def __ne__(self, o):
        r = self == o
        return SBool(NOT(r.b)) if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(('inf', self.sign))

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, InfT):
            raise Unsupported('inf-inf')
        return self

    def __rsub__(self, o):
        return InfT(-self.sign)

    def __mul__(self, o):
        return self._scale(o)

    __rmul__ = __mul__

    def _scale(self, o):
        p = to_poly(o)
        c = p.const()
        if c is not None:
            if c == 0:
                raise Unsupported('inf*0')
            return InfT(self.sign if c > 0 else -self.sign)
        if CX.CUR.decide(LT(ZERO, p)):
            return InfT(self.sign)
        if CX.CUR.decide(LT0(p)):
            return InfT(-self.sign)
        raise Unsupported('inf*0')

    __truediv__ = _scale

    def __rtruediv__(self, o):
        return 0

    def __abs__(self):
        return InfT(1)

    def __float__(self):
        return float('inf') * self.sign

    def __format__(self, s):
        return 'inf'

    def __repr__(self):
        return 'inf' if self.sign > 0 else '-inf'

    def item(self):
        return self

    def copy(self):
        return self

    def reshape(self, *s):
        return asarr(self).reshape(*s)


class SBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = B(b)

    def __bool__(self):
        return CX.CUR.decide(self.b)

    def _o(self, o):
        return to_bool(o)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(AND(self.b, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(OR(self.b, to_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(NOT(self.b))

    def __eq__(self, o):
        if o is None:
            return False
        q = to_bool(o)
        return SBool(OR(AND(self.b, q), AND(NOT(self.b), NOT(q))))

    def __ne__(self, o):
        return SBool(NOT((self == o).b)) if o is not None else True

    def __hash__(self):
        return id(self.b)

    def _n(self):
        return SNum(IV(self.b))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __int__(self):
        raise Unsupported('int(SBool) outside shim')

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return 'SBool(%s)' % show(self.b)

    def __format__(self, s):
        return '?'


def _arith(op):
    def f(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise TypeError('unsupported operand')
        if isinstance(o, InfT):
            return getattr(o, {'add': '__radd__', 'sub': '__rsub__', 'mul': '__rmul__',
                               'div': '__rtruediv__'}[op])(self)
        return SNum(OPS[op](self.p, to_poly(o)))

    def r(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise TypeError('unsupported operand')
        if isinstance(o, InfT):
            return getattr(o, {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__',
                               'div': '__truediv__'}[op])(self)
        return SNum(OPS[op](to_poly(o), self.p))
    return f, r


def pdiv(a, b):
    CX.CUR.ver.note_div(a, b)
    return a * recip(b)


def ppw(a, b):
    return fnapp('pow', a, b)


def pfloordiv(a, b):
    cb = b.const()
    if cb is not None and a.is_int() and cb.denominator == 1:
        q = a.scale(Fraction(1) / cb)
        if q.is_int():
            return q
        # exact when every integer point divides is not decidable here
        return fnapp('floor', q)
    return fnapp('floor', a * recip(b))


def pmod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P(ca % cb)
    if cb is not None and a.is_int() and cb == 1:
        return ZERO
    return a - b * pfloordiv(a, b)


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
       'div': pdiv, 'pow': ppw, 'floordiv': pfloordiv, 'mod': pmod}


class SNum:
    __slots__ = ('p',)
    ndim = 0
    shape = ()
    size = 1
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    __add__, __radd__ = _arith('add')
    __sub__, __rsub__ = _arith('sub')
    __mul__, __rmul__ = _arith('mul')
    __truediv__, __rtruediv__ = _arith('div')
    __floordiv__, __rfloordiv__ = _arith('floordiv')
    __mod__, __rmod__ = _arith('mod')
    __pow__, __rpow__ = _arith('pow')

    def __neg__(self):
        return SNum(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(fnapp('abs', self.p))

    def _c(self, o, f):
        if isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, InfT):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        return SBool(f(self.p, to_poly(o)))

    def __lt__(self, o):
        return self._c(o, LT)

    def __le__(self, o):
        return self._c(o, LE)

    def __gt__(self, o):
        return self._c(o, lambda a, b: LT(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: LE(b, a))

    def __eq__(self, o):
        return self._c(o, EQ)

    def __ne__(self, o):
        r = self._c(o, EQ)
        return SBool(NOT(r.b)) if isinstance(r, SBool) else r

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return CX.CUR.decide(NOT(EQ0(self.p)))

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported('symbolic integer %s used where a python int is needed' % show(self.p))

    def __float__(self):
        raise Unsupported('float() of a symbolic number outside the shim')

    __int__ = __index__

    def __format__(self, s):
        return '<sym>'

    def __repr__(self):
        return 'SNum(%s)' % show(self.p)

    # numpy scalar behaviour
    def item(self, *a):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def astype(self, *a, **k):
        return self

    def reshape(self, *s):
        return asarr(self).reshape(*s)

    def ravel(self):
        return asarr(self).reshape(-1)

    flatten = ravel

    def tolist(self):
        return self

    def min(self, *a, **k):
        return self

    max = mean = sum = min

    @property
    def T(self):
        return self

    @property
    def ndim_(self):
        return 0

    def __getitem__(self, k):
        if k == ():
            return self
        raise IndexError('invalid index to scalar variable.')


# ------------------------------------------------------------------ arrays
class Buf:
    """storage; `f` maps a tuple of index Polys to Poly/Bool"""
    __slots__ = ('f', 'shape', 'name', 'gen', 'owner', 'cast', 'shares', '__weakref__')

    def __init__(self, f, shape, name=None):
        self.shares = None       # buffers that numpy would keep in the same memory
        self.cast = None         # conversion of written values to the element type
        self.f = memo(f)
        self.shape = tuple(shape)
        self.name = name
        self.gen = 0
        self.owner = None

    def set(self, f):
        self.f = memo(f)
        self.gen += 1


def memo(f):
    if getattr(f, '_memo', False):
        return f
    c = {}

    def g(idx):
        r = c.get(idx)
        if r is None:
            r = c[idx] = f(idx)
        return r
    g._memo = True
    return g


def base_of(dims, idx):
    out = []
    for d in dims:
        if d[0] == 'fix':
            out.append(d[1])
        else:
            e = idx[d[1]]
            if d[3] == 1:
                out.append(e + d[2])
            else:
                out.append(e.scale(d[3]) + d[2])
    return tuple(out)


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, buf, shape, dims=None, tag=None):
        self.buf = buf
        self._shape = tuple(P(s) for s in shape)
        # dims: per base axis ('fix', e) | ('dim', outaxis, start, step)
        self.dims = dims if dims is not None else tuple(
            ('dim', i, ZERO, 1) for i in range(len(self._shape)))
        self.tag = tag

    # --- shape ---------------------------------------------------------
    @property
    def shape(self):
        return ShapeT(self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for s in self._shape:
            r = r * s
        return W(r)

    @property
    def dtype(self):
        return 'float64'

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        c = self._shape[0].const()
        if c is None:
            raise Unsupported('len() of symbolic array outside shim')
        return int(c)

    # --- element access --------------------------------------------------
    def base_index(self, idx):
        return base_of(self.dims, idx)

    def rawat(self, idx):
        return self.buf.f(self.base_index(tuple(idx)))

    def at(self, *idx):
        v = self.rawat([to_poly(i) for i in idx])
        return IV(v) if isinstance(v, Bool) else v

    def snap(self):
        """element function frozen at this moment"""
        f = self.buf.f
        dims = self.dims         # (not self: the buffer must not be kept alive)
        return memo(lambda idx: f(base_of(dims, idx)))

    def nsnap(self):
        s = self.snap()
        return lambda idx: (lambda v: IV(v) if isinstance(v, Bool) else v)(s(idx))

    # --- python protocol ----------------------------------------------------
    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        c = self._shape[0].const()
        if c is None:
            raise Unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in range(int(c))])

    def __bool__(self):
        if all(s is ONE for s in self._shape):
            return bool(wrapv(self.rawat([ZERO] * self.ndim)) if not isinstance(self.rawat([ZERO] * self.ndim), Bool)
                        else SBool(self.rawat([ZERO] * self.ndim)))
        # numpy raises for size != 1
        n = to_poly(self.size)
        if CX.CUR.decide(EQ(n, ONE)):
            v = self.rawat([ZERO] * self.ndim)
            return bool(SBool(v) if isinstance(v, Bool) else SNum(v))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __repr__(self):
        return 'SArr%s' % (tuple(show(s) for s in self._shape),)

    def __format__(self, s):
        return '<array>'

    __hash__ = object.__hash__

    def __getitem__(self, key):
        import arr
        return arr.getitem(self, key)

    def __setitem__(self, key, val):
        import arr
        arr.setitem(self, key, val)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'where':
            return None
        import arr
        h = arr.METHODS.get(name)
        if h is None:
            raise Unsupported('ndarray.%s' % name)
        return lambda *a, **k: h(self, *a, **k)

    @property
    def T(self):
        n = self.ndim
        perm = {i: n - 1 - i for i in range(n)}
        dims = tuple(('dim', perm[d[1]], d[2], d[3]) if d[0] == 'dim' else d for d in self.dims)
        return SArr(self.buf, self._shape[::-1], dims)

    @property
    def flat(self):
        import arr
        return arr.ravel(self)

    # --- operators --------------------------------------------------------
    def __neg__(self):
        return ew(lambda a: -a, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew(lambda a: fnapp('abs', a), self)

    def __invert__(self):
        return ewb(lambda a: NOT(a), self)

    def __matmul__(self, o):
        import arr
        return arr.matmul(self, o)

    def __rmatmul__(self, o):
        import arr
        return arr.matmul(o, self)


class ShapeT(tuple):
    """tuple of dims, python ints where constant"""
    def __new__(cls, ps):
        return super().__new__(cls, [W(P(p)) if isinstance(p, Poly) else p for p in ps])


def shp(a):
    return a._shape


def _bin(op):
    def f(self, o):
        if o is None or isinstance(o, str):
            raise TypeError('unsupported operand type(s)')
        return ew(OPS[op], self, o)

    def r(self, o):
        if o is None or isinstance(o, str):
            raise TypeError('unsupported operand type(s)')
        return ew(OPS[op], o, self)

    def i(self, o):
        v = ew(OPS[op], self, o)
        self[...] = v
        return self
    return f, r, i


for _n, _op in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'),
                ('pow', 'pow'), ('floordiv', 'floordiv'), ('mod', 'mod')):
    _f, _r, _i = _bin(_op)
    setattr(SArr, '__%s__' % _n, _f)
    setattr(SArr, '__r%s__' % _n, _r)
    setattr(SArr, '__i%s__' % _n, _i)


def _cmp(fn):
    def f(self, o):
        if o is None or isinstance(o, str):
            return False
        return ew(fn, self, o)
    return f


SArr.__lt__ = _cmp(LT)
SArr.__le__ = _cmp(LE)
SArr.__gt__ = _cmp(lambda a, b: LT(b, a))
SArr.__ge__ = _cmp(lambda a, b: LE(b, a))
SArr.__eq__ = _cmp(EQ)
SArr.__ne__ = _cmp(lambda a, b: NOT(EQ(a, b)))
SArr.__and__ = SArr.__rand__ = lambda s, o: ewb(AND, s, o)
SArr.__or__ = SArr.__ror__ = lambda s, o: ewb(OR, s, o)
SArr.__hash__ = object.__hash__


def asarr(x):
    """convert to SArr (shares storage for SArr)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple)):
        import arr
        return arr.from_list(x)
    if isinstance(x, SBool):
        b = x.b
        return SArr(Buf(lambda idx: b, ()), ())
    if isinstance(x, bool):
        b = B(x)
        return SArr(Buf(lambda idx: b, ()), ())
    p = to_poly(x)
    return SArr(Buf(lambda idx: p, ()), ())


def dim_eq(a, b):
    """broadcast-compatible size or raise ValueError (forks when undecided)"""
    if a is b:
        return a
    if a is ONE:
        return b
    if b is ONE:
        return a
    c = EQ(a, b)
    if CX.CUR.decide(c):
        return a if (a.const() is not None or b.const() is None) else b
    if CX.CUR.decide(EQ(a, ONE)):
        return b
    if CX.CUR.decide(EQ(b, ONE)):
        return a
    raise ValueError('operands could not be broadcast together: %s vs %s' % (show(a), show(b)))


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        r = ONE
        for s in shapes:
            k = ax - (n - len(s))
            if k >= 0:
                r = dim_eq(r, s[k])
        out.append(r)
    return tuple(out)


def is_one(s):
    if s is ONE:
        return True
    if s.const() is not None:
        return False
    return CX.CUR.known(EQ(s, ONE)) is True


def bget(f, shape, n):
    """element function of an operand broadcast to n output axes"""
    off = n - len(shape)
    ones = [is_one(s) for s in shape]

    def g(idx):
        return f(tuple(ZERO if ones[k] else idx[off + k] for k in range(len(shape))))
    return g


def ew(f, *xs):
    """elementwise numeric operation with broadcasting"""
    arrs = [asarr(x) for x in xs]
    sh = bshape([a._shape for a in arrs])
    n = len(sh)
    fs = [bget(a.snap(), a._shape, n) for a in arrs]

    def g(idx):
        vals = []
        for h in fs:
            v = h(idx)
            vals.append(IV(v) if isinstance(v, Bool) else v)
        return f(*vals)
    if n == 0:
        return wrapv(g(()))
    return SArr(Buf(g, sh), sh)


def ewb(f, *xs):
    arrs = [asarr(x) for x in xs]
    sh = bshape([a._shape for a in arrs])
    n = len(sh)
    fs = [bget(a.snap(), a._shape, n) for a in arrs]

    def g(idx):
        return f(*[to_bool(h(idx)) for h in fs])
    if n == 0:
        return wrapv(g(()))
    return SArr(Buf(g, sh), sh)


def newarr(f, shape, tag=None):
    return SArr(Buf(f, tuple(P(s) for s in shape)), shape, tag=tag)


# ------------------------------------------------------------------- lists
def has_bound(k):
    return any(v.kind == 'bv' or v in ir._sizes for v in to_poly(k).fv)


class SList(list):
    """python list whose first n elements (n may be symbolic) are given by an
    element function; the rest are ordinary elements"""

    def __init__(self, n=0, elem=None, tail=()):
        list.__init__(self, tail)
        self.n = P(n)
        self.elem = elem

    @property
    def tail(self):
        return list.__getitem__(self, slice(None))

    def concrete(self):
        return self.n is ZERO

    def length(self):
        return self.n + P(list.__len__(self))

    def become(self, n, elem, tail=()):
        list.clear(self)
        list.extend(self, tail)
        self.n = P(n)
        self.elem = elem

    def _need(self, what):
        if not self.concrete():
            raise Unsupported('list.%s on a list of symbolic length' % what)

    def copy(self):
        return SList(self.n, self.elem, self.tail)

    def get(self, i):
        """element at Poly index i (no bounds check)"""
        t = self.tail
        i = P(i)
        for q, x in enumerate(t):
            if i is self.n + P(q) or EQ(i, self.n + P(q)) is TRUE:
                return x
        if self.concrete():
            if not t:
                raise IndexError('list index out of range')
            return merge_values([(EQ(i, P(q)), x) for q, x in enumerate(t[:-1])], t[-1])
        if not t:
            return self.elem(i)
        if LT(i, self.n) is TRUE:
            return self.elem(i)
        return merge_values(
            [(EQ(i, self.n + P(q)), x) for q, x in enumerate(t)], self.elem(i))

    def _idx(self, k):
        i = to_poly(k)
        n = self.length()
        if CX.CUR.decide(LT0(i)):
            i = i + n
            if not CX.CUR.decide(NOT(LT0(i))):
                raise IndexError('list index out of range')
        elif not CX.CUR.decide(LT(i, n)):
            raise IndexError('list index out of range')
        return i

    def _split(self, k):
        """one path per position"""
        i = self._idx(k)
        n = list.__len__(self)
        for q in range(n - 1):
            if CX.CUR.decide(EQ(i, P(q))):
                return q
        return n - 1

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.concrete():
                k = slice(*[None if x is None else x.__index__() for x in (k.start, k.stop, k.step)])
                return SList(0, None, list.__getitem__(self, k))
            if k.start is None and k.stop is None and k.step in (None, 1):
                return self.copy()
            raise Unsupported('slice of symbolic list')
        if self.concrete() and isinstance(k, int):
            return list.__getitem__(self, k)
        if self.concrete() and not all(isnum(x) for x in self.tail) and not has_bound(k):
            return list.__getitem__(self, self._split(k))
        r = self.get(self._idx(k))
        return r.resolve() if isinstance(r, Union) else r

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self._need('slice assignment')
            return list.__setitem__(self, k, v)
        if self.concrete() and isinstance(k, int):
            return list.__setitem__(self, k, v)
        if self.concrete() and not has_bound(k):
            return list.__setitem__(self, self._split(k), v)
        i = self._idx(k)
        for q in range(list.__len__(self)):
            if EQ(i, self.n + P(q)) is TRUE:
                list.__setitem__(self, q, v)
                return
        if not list.__len__(self):
            old = self.elem
            self.elem = lambda j: vite(EQ(j, i), v, old(j))
            return
        raise Unsupported('assignment into symbolic list')

    def __len__(self):
        c = self.length().const()
        if c is None:
            raise Unsupported('len() of symbolic list outside shim')
        return int(c)

    def __iter__(self):
        if self.concrete():
            return list.__iter__(self)
        c = self.length().const()
        if c is None:
            raise Unsupported('iteration over symbolic list')
        return iter([self.get(P(i)) for i in range(int(c))])

    def __bool__(self):
        return CX.CUR.decide(LT(ZERO, self.length()))

    def __add__(self, o):
        if isinstance(o, SList) and not o.concrete():
            if self.concrete() and not self.tail:
                return o.copy()
            raise Unsupported('concatenation of symbolic lists')
        return SList(self.n, self.elem, self.tail + list(o))

    def __radd__(self, o):
        self._need('radd')
        return SList(0, None, list(o) + self.tail)

    def __mul__(self, k):
        c = to_poly(k).const()
        if c is not None and self.concrete():
            return SList(0, None, self.tail * int(c))
        if self.concrete() and list.__len__(self) == 1:
            x = self.tail[0]
            return SList(to_poly(k), lambda i: x)
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def __contains__(self, x):
        self._need('contains')
        return any(bool(x == y) for y in self.tail)

    def pop(self, k=-1):
        if list.__len__(self) and k == -1:
            return list.pop(self)
        if self.concrete():
            return list.pop(self, k.__index__())
        if k == -1:
            n = self.n
            if not CX.CUR.decide(LT(ZERO, n)):
                raise IndexError('pop from empty list')
            x = self.elem(n - ONE)
            self.n = n - ONE
            return x
        raise Unsupported('pop(i)')

    def insert(self, i, x):
        self._need('insert')
        list.insert(self, i, x)

    def __deepcopy__(self, memo):
        raise Unsupported('deepcopy outside shim')

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        self._need('==')
        return self.tail == (o.tail if isinstance(o, SList) else list(o))

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return 'SList[%s + %d]' % (show(self.n), list.__len__(self))


def merge_values(conds, default):
    """value-level if-then-else"""
    r = default
    for c, v in conds:
        r = vite(c, v, r)
    return r


def variant_of(x):
    if x is None:
        return ('none',)
    if isinstance(x, InfT):
        return ('inf', x.sign)
    if isinstance(x, SArr):
        return ('arr', tuple(x._shape))
    if isnum(x):
        return ('num',)
    return None


def same_size(a, b):
    """are the sizes provably equal (counts of selected rows: only if identical)"""
    return a is b or (a is not None and b is not None and '!en' not in hnames(a) | hnames(b) and CX.CUR.prove(EQ(a, b)))


def variant_fit(u, v):
    """u, generalised (None = a size that varies) so that it covers v; None if it cannot"""
    if u[0] != v[0]:
        return None
    if u[0] == 'arr':
        if len(u[1]) != len(v[1]):
            return None
        sh = tuple(a if same_size(a, b) else None for a, b in zip(u[1], v[1]))
        return u if sh == u[1] else ('arr', sh)
    return u if u == v else None


def variant_add(vars, u):
    """position of a variant covering u in the list vars, which is extended if need be"""
    for j, w in enumerate(vars):
        f = variant_fit(w, u)
        if f is not None:
            vars[j] = f
            return j
    vars.append(u)
    return len(vars) - 1


class Union:
    """a value of one of several types (tag), as kept in lists that a loop
    fills; code that reads it splits into the cases.  val(j)(idx): the value
    of case j; val((j, a))(()): its size along axis a"""

    def __init__(self, vars, tag, val):
        self.vars, self.tag, self.val = tuple(vars), tag, val

    def case(self, j):
        u = self.vars[j]
        if u[0] == 'none':
            return None
        if u[0] == 'inf':
            return InfT(u[1])
        if u[0] == 'num':
            return SNum(self.val(j)(()))
        return newarr(self.val(j), tuple(self.val((j, a))(()) if s is None else s for a, s in enumerate(u[1])), tag='num')

    def resolve(self):
        for j in range(len(self.vars) - 1):
            if CX.CUR.decide(EQ(self.tag, P(j))):
                return self.case(j)
        return self.case(len(self.vars) - 1)


def union_index(vars, x):
    u = variant_of(x)
    if u is not None:
        for j, w in enumerate(vars):
            if variant_fit(w, u) is w:
                return j
    return None


def union_parts(vars, x):
    """(tag, val) of x seen as a union over vars"""
    if isinstance(x, Union):
        pos = []
        for u in x.vars:
            js = [j for j, w in enumerate(vars) if variant_fit(w, u) is w]
            if not js:
                raise Unsupported('unions of different types')
            pos.append(js[0])
        tag = P(pos[-1])
        for q in reversed(range(len(pos) - 1)):
            tag = ITE(EQ(x.tag, P(q)), P(pos[q]), tag)
        if pos == list(range(len(pos))):
            tag = x.tag

        def uval(key):
            j, a = key if isinstance(key, tuple) else (key, None)
            if j not in pos:
                return lambda idx: ZERO
            q = pos.index(j)
            if a is None:
                return x.val(q)
            s = x.vars[q][1][a]
            return x.val((q, a)) if s is None else (lambda idx: s)
        return tag, uval
    k = union_index(vars, x)
    if k is None:
        raise Unsupported('list of %s modified in a loop' % type(x).__name__)

    def val(key):
        j, a = key if isinstance(key, tuple) else (key, None)
        if j != k:
            return lambda idx: ZERO
        if a is not None:
            return lambda idx: x._shape[a]
        if isinstance(x, SArr):
            f = x.nsnap()
            return lambda idx: f(tuple(idx))
        return lambda idx: to_poly(x)
    return P(k), val


def union_comp(vars, name):
    """'w1' / 'e1' -> 1,  'w1s0' -> (1, 0)"""
    q = name[1:].split('s')
    return int(q[0]) if len(q) == 1 else (int(q[0]), int(q[1]))


def vite(c, a, b):
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Union) or isinstance(b, Union):
        vs = a.vars if isinstance(a, Union) and (not isinstance(b, Union) or len(a.vars) >= len(b.vars)) else b.vars
        ta, va = union_parts(vs, a)
        tb, vb = union_parts(vs, b)
        return Union(vs, ITE(c, ta, tb), lambda j: (lambda idx: ITE(c, va(j)(idx), vb(j)(idx))))
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            # tolerate (1,d) vs (d,)? no - different python shapes
            raise Unsupported('merge of arrays of different rank')
        for x, y in zip(a._shape, b._shape):
            if x is not y and not CX.CUR.prove(EQ(x, y)):
                raise Unsupported('merge of arrays of different shape')
        fa, fb = a.nsnap(), b.nsnap()
        return newarr(lambda idx: ITE(c, fa(idx), fb(idx)), a._shape)
    if (isnum(a) or isinstance(a, Poly)) and (isnum(b) or isinstance(b, Poly)):
        return SNum(ITE(c, to_poly(a), to_poly(b)))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        x, y = to_bool(a), to_bool(b)
        return SBool(OR(AND(c, x), AND(NOT(c), y)))
    if isinstance(a, SList) and isinstance(b, SList) and a.concrete() and b.concrete() \
            and list.__len__(a) == list.__len__(b):
        return SList(0, None, [vite(c, x, y) for x, y in zip(a.tail, b.tail)])
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
