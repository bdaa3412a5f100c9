"""Runtime of the extracted code: exact arithmetic, builtins, loop drivers."""
from fractions import Fraction
import sys
import ctx as CX
import ir
from ir import *
from sym import *
import arr as A
import np_shim as N
import builtins as _b


# ------------------------------------------------------------- arithmetic
def C(text):
    """a float literal: the exact decimal"""
    t = text.lower()
    if 'j' in t:
        raise Unsupported('complex literal')
    return Fraction(t)


def _plain(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def div(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if _plain(a) and _plain(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        r = Fraction(a) / b
        return r
    return a / b


def pow_(a, b):
    if _plain(a) and _plain(b):
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int):
            if isinstance(a, int) and b >= 0:
                return a ** b
            if a == 0 and b < 0:
                raise ZeroDivisionError()
            return Fraction(a) ** b
        return SNum(fnapp('pow', P(a), P(b)))
    if isinstance(a, InfT):
        return a
    if isinstance(a, (SArr, list)) or isinstance(b, (SArr, list)):
        return ew(OPS['pow'], a, b)
    return SNum(fnapp('pow', to_poly(a), to_poly(b)))


def idiv(a, b):
    if isinstance(a, SArr):
        a /= b
        return a
    return div(a, b)


def ipow(a, b):
    if isinstance(a, SArr):
        a[...] = pow_(a, b)
        return a
    return pow_(a, b)


def floordiv(a, b):
    return a // b


def L(x):
    """list display"""
    return SList(0, None, x)


# --------------------------------------------------------------- builtins
def vlen(x):
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError('len() of unsized object')
        return W(x._shape[0])
    if isinstance(x, SList):
        return W(x.length())
    if isinstance(x, SRange):
        return W(x.n)
    return _b.len(x)


class SRange:
    """range with symbolic bounds; item(k) for k in [0,n)"""

    def __init__(self, lo, n, step=1, fn=None):
        self.lo, self.n, self.step = lo, n, step
        self.fn = fn or (lambda k: W(lo + k.scale(step)))

    def item(self, k):
        return self.fn(k)

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported('iteration over a symbolic range outside a loop')
        return iter([self.item(P(i)) for i in range(int(c))])

    def __getitem__(self, k):
        return self.item(to_poly(k))


def vrange(a, b=None, step=1):
    lo, hi = (ZERO, to_poly(a)) if b is None else (to_poly(a), to_poly(b))
    for x in (a, b):
        if isinstance(x, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
    st = to_poly(step).const()
    if st is None:
        raise Unsupported('range with symbolic step')
    st = int(st)
    if lo.const() is not None and hi.const() is not None:
        return _b.range(int(lo.const()), int(hi.const()), st)
    if st == 1:
        n = hi - lo
    elif st == -1:
        n = lo - hi
    else:
        raise Unsupported('range step')
    if not CX.CUR.decide(NOT(LT0(n))):
        n = ZERO
    return SRange(lo, n, st)


def as_iter(x):
    """concrete python iterable, or SRange-like with symbolic length"""
    if isinstance(x, SRange):
        c = x.n.const()
        return list(x) if c is not None else x
    if isinstance(x, SList):
        c = x.length().const()
        if c is not None:
            return list(x)
        return SRange(ZERO, x.length(), 1, lambda k: x.get(k))
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError('iteration over a 0-d array')
        c = x._shape[0].const()
        if c is not None:
            return list(x)
        return SRange(ZERO, x._shape[0], 1, lambda k: rowitem(x, k))
    if isinstance(x, (SNum, SBool)):
        raise TypeError('object is not iterable')
    return x


def rowitem(x, k):
    v = A.view(x, [SNum(k)] + [slice(None)] * (x.ndim - 1)) if True else None
    return v if v._shape else wrapv(v.rawat(()))


def venumerate(x, start=0):
    it = as_iter(x)
    if isinstance(it, SRange):
        s = to_poly(start)
        return SRange(ZERO, it.n, 1, lambda k: (W(k + s), it.item(k)))
    return _b.enumerate(it, to_int_const(start))


def to_int_const(x):
    return int(to_poly(x).const())


def vzip(*xs):
    its = [as_iter(x) for x in xs]
    if any(isinstance(i, SRange) for i in its):
        n = None
        for i in its:
            m = i.n if isinstance(i, SRange) else None
            if m is None:
                raise Unsupported('zip of symbolic and concrete iterables')
            n = m if n is None else (n if n is m or CX.CUR.decide(LE(n, m)) else m)
        return SRange(ZERO, n, 1, lambda k: tuple(i.item(k) for i in its))
    return _b.zip(*its)


def vreversed(x):
    it = as_iter(x)
    if isinstance(it, SRange):
        n = it.n
        return SRange(ZERO, n, 1, lambda k: it.item(n - ONE - k))
    return _b.reversed(list(it))


def vmap(f, *xs):
    its = [as_iter(x) for x in xs]
    if any(isinstance(i, SRange) for i in its):
        return lc(lambda t: f(t), xs[0]) if len(xs) == 1 else (_ for _ in ()).throw(Unsupported('map'))
    return _b.map(f, *its)


_TYPES = {int: N.T_int, float: N.T_float, bool: N.T_bool, list: N.T_list}


def visinstance(x, t):
    if isinstance(t, (tuple, N.UnionTok)):
        return any(visinstance(x, u) for u in t)
    if isinstance(t, N.TypeTok):
        return bool(t.test(x))
    if t is None:
        return x is None
    if isinstance(t, type):
        if t in (str, tuple, dict, type(None), object, set):
            return _b.isinstance(x, t)
        return _b.isinstance(x, t)
    try:
        import typing
        o = typing.get_origin(t)
        if o is not None:
            if o is typing.Union:
                return any(visinstance(x, u) for u in typing.get_args(t))
            return visinstance(x, _TYPES.get(o, o))
    except TypeError:
        pass
    if t is typing.Any:
        raise TypeError('isinstance Any')
    raise Unsupported('isinstance against %r' % (t,))


def _vmm(name, sign):
    def f(*xs, key=None, default=None):
        if key is not None:
            raise Unsupported('min/max with key')
        if len(xs) == 1:
            x = xs[0]
            if isinstance(x, SArr):
                if x.ndim != 1:
                    raise ValueError('The truth value of an array is ambiguous')
                return A.ext(x, None, False, sign)
            it = as_iter(x)
            if isinstance(it, SRange):
                return A.ext(lc_arr(it), None, False, sign)
            xs = list(it)
            if not xs:
                raise ValueError('%s() arg is an empty sequence' % name)
        if all(_plain(x) for x in xs):
            return (_b.min if sign > 0 else _b.max)(xs)
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, InfT) or isinstance(y, InfT):
                r = N.minimum(r, y) if sign > 0 else N.maximum(r, y)
                continue
            if isinstance(r, SArr):
                r = A.item(r)
            if isinstance(y, SArr):
                y = A.item(y)
            r = SNum((A.pmin if sign > 0 else A.pmax)(to_poly(r), to_poly(y)))
        return r
    return f


def lc_arr(it):
    return newarr(lambda idx: to_poly(it.item(idx[0])), (it.n,))


def vsum(x, start=0):
    if isinstance(x, SArr):
        if x.ndim == 1:
            return A.sum_(x) + start
        return A.sum_(x, axis=0) + start
    it = as_iter(x)
    if isinstance(it, SRange):
        v = uvar('sm', 'I', 0, it.n)
        e = it.item(P(v))
        if isinstance(e, SArr):
            el = it
            sh = e._shape

            def g(idx):
                w = uvar('sm', 'I', 0, it.n)
                return SUM(w, it.n, el.item(P(w)).at(*idx))
            return newarr(g, sh) + start
        return SNum(SUM(v, it.n, to_poly(e))) + start
    r = start
    for y in it:
        r = r + y
    return r


def vabs(x):
    if _plain(x):
        return _b.abs(x)
    return abs(x)


def vround(x, n=None):
    if _plain(x):
        return round(x, n) if n is not None else round(x)
    c = to_poly(x).const() if isnum(x) else None
    if c is None:
        if n is not None or not isnum(x):
            raise Unsupported('round of a symbolic value')
        return SNum(app('round', [to_poly(x)], 'I'))
    return round(c) if n is None else round(c, int(to_poly(n).const()))


def vany(x):
    if isinstance(x, SArr):
        return A.any_(x)
    it = as_iter(x)
    if isinstance(it, SRange):
        return A.any_(newarr(lambda idx: to_bool(it.item(idx[0])), (it.n,)))
    return _b.any(it)


def vall(x):
    if isinstance(x, SArr):
        return A.all_(x)
    it = as_iter(x)
    if isinstance(it, SRange):
        return A.all_(newarr(lambda idx: to_bool(it.item(idx[0])), (it.n,)))
    return _b.all(it)


def vsorted(x, key=None, reverse=False):
    if isinstance(x, (SArr,)):
        raise Unsupported('sorted')
    xs = list(as_iter(x))
    if all(_plain(y) or isinstance(y, str) for y in xs):
        return SList(0, None, _b.sorted(xs, key=key, reverse=reverse))
    raise Unsupported('sorted of symbolic values')


def vlist(x=()):
    if isinstance(x, SList):
        return x.copy()
    if isinstance(x, SArr):
        c = x._shape[0].const()
        if c is None:
            return SList(x._shape[0], lambda k: rowitem(x, k))
        return SList(0, None, [rowitem(x, P(i)) for i in range(int(c))])
    if isinstance(x, SRange) and x.n.const() is None:
        return SList(x.n, x.item)
    return SList(0, None, list(x))


def vtuple(x=()):
    if isinstance(x, (SArr, SList, SRange)):
        return tuple(vlist(x))
    return tuple(x)


def vprint(*a, **k):
    return None


def vpow(a, b, m=None):
    return pow_(a, b)


def vdivmod(a, b):
    return (a // b, a % b)


def lc(f, it):
    """[f(x) for x in it]"""
    it = as_iter(it)
    if not isinstance(it, SRange):
        return SList(0, None, [f(x) for x in it])
    c = CX.CUR
    n = it.n
    v = uvar('lc', 'I', 0, n)
    nd = len(c.dec)
    npc = len(c.pc)
    st = c.rng.state if c.rng is not None else None
    val = f(it.item(P(v)))
    if c.rng is not None and c.rng.state is not st:
        raise Unsupported('random draw in a comprehension of symbolic length')
    for b in c.pc[npc:]:
        if v in b.fv:
            raise Unsupported('branch on the element of a symbolic comprehension')
    return SList(n, lambda i: subst_value(val, {v: P(i)}))


def subst_value(val, mp):
    if isinstance(val, SNum):
        return SNum(subst(val.p, mp))
    if isinstance(val, SBool):
        return SBool(subst(val.b, mp))
    if isinstance(val, SArr):
        f = val.snap()
        return newarr(lambda idx: subst_idx(f, idx, mp), [subst(s, mp) for s in val._shape], tag=val.tag)
    if isinstance(val, SList):
        el = val.elem
        return SList(subst(val.n, mp), (lambda i: subst_value(el(i), mp)) if el else None,
                     [subst_value(x, mp) for x in val.tail])
    if isinstance(val, (list, tuple)):
        return type(val)(subst_value(x, mp) for x in val)
    if isinstance(val, dict):
        return {k: subst_value(x, mp) for k, x in val.items()}
    if isinstance(val, (int, Fraction, str, type(None), InfT)) or callable(val):
        return val
    raise Unsupported('value of type %s depending on a loop counter' % type(val).__name__)


def subst_idx(f, idx, mp):
    """f(idx)[mp] where the indices themselves may mention mp's variables"""
    vs = [uvar('si') for _ in idx]
    keys = set(mp)
    if not any(i.fv & keys for i in idx):
        # open with the actual indices (they are untouched by mp)
        return subst(f(tuple(idx)), mp)
    r = f(tuple(P(v) for v in vs))
    r = subst(r, mp)
    return subst(r, dict(zip(vs, idx)))


def caught(e):
    """entry of an except handler: engine failures must not be swallowed"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last is not None else ''
    if fn.startswith(ENGINE_DIR) and isinstance(e, (AttributeError, NameError, AssertionError, RecursionError,
                                                    KeyError, NotImplementedError)):
        raise Unsupported('engine failure inside try: %r' % (e,))


import os
ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))


def make_builtins(imp):
    d = {k: getattr(_b, k) for k in dir(_b) if not k.startswith('_') or k in (
        '__build_class__', '__name__', '__doc__', '__debug__')}
    d.update({
        'len': vlen, 'range': vrange, 'isinstance': visinstance, 'enumerate': venumerate, 'zip': vzip,
        'reversed': vreversed, 'map': vmap, 'min': _vmm('min', 1), 'max': _vmm('max', -1), 'sum': vsum, 'abs': vabs,
        'round': vround, 'any': vany, 'all': vall, 'sorted': vsorted, 'list': ListTok(), 'tuple': tuple,
        'print': vprint, 'int': N.T_int, 'float': N.T_float, 'pow': vpow, 'divmod': vdivmod, 'open': N.File,
        'bool': N.T_bool,
        '__import__': imp,
    })
    return d


class ListTok(N.TypeTok):
    def __init__(self):
        N.TypeTok.__init__(self, 'list', lambda x: _b.isinstance(x, list), vlist)
