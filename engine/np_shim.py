"""Contracts of the external modules (numpy, scipy, time, pickle, ...) used by
the extracted code.  Deterministic numpy operations are given their exact
real-arithmetic meaning; random generators, optimisers and file output are
given contracts (these are the trusted base, listed in the evidence)."""
from fractions import Fraction
import math
import ctx as CX
import ir
from ir import *
from sym import *
import arr as A
from arr import *
import prover


class Mod:
    def __init__(self, name, **kw):
        self.__dict__['_n'] = name
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s is not modelled' % (self._n, k))


TRUSTED = {}


def trust(key, text):
    TRUSTED[key] = text


# ------------------------------------------------------------------ types
class TypeTok:
    """stand-in for a type used in isinstance / dtype= / casts"""

    def __init__(self, name, test, cast=None):
        self.name, self.test, self.cast = name, test, cast
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.cast is None:
            raise Unsupported('call of %s' % self.name)
        return self.cast(*a, **k)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return UnionTok((self, o))

    __ror__ = __or__

    def __repr__(self):
        return self.name


class UnionTok(tuple):
    def __new__(cls, x):
        return super().__new__(cls, x)

    def __or__(self, o):
        return UnionTok(tuple(self) + (o,))


def is_intval(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    return isinstance(x, SNum) and x.p.is_int()


def is_floatval(x):
    return isinstance(x, (Fraction, float, InfT)) or (isinstance(x, SNum) and not x.p.is_int())


def to_int(x=0, base=None):
    if isinstance(x, str):
        return int(x)
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, (SArr, SBool)):
        x = SNum(to_poly(x))
    if isinstance(x, Fraction) or (isinstance(x, SNum) and x.p.const() is not None):
        c = to_poly(x).const()
        return int(c) if c >= 0 else -int(-c)
    if isinstance(x, SNum):
        if x.p.is_int():
            return x
        return W(fnapp('floor', x.p)) if CX.CUR.decide(LE(ZERO, x.p)) else SNum(-fnapp('floor', -x.p))
    if isinstance(x, float):
        return int(x)
    raise TypeError('int() argument')


def to_float(x=0):
    if isinstance(x, str):
        if x.strip().lower() in ('inf', '+inf', 'infinity'):
            return InfT(1)
        if x.strip().lower() in ('-inf', '-infinity'):
            return InfT(-1)
        if x.strip().lower() == 'nan':
            raise Unsupported('nan')
        return Fraction(x)
    if isinstance(x, (InfT,)):
        return x
    if isinstance(x, SArr):
        return A.item(x)
    if isinstance(x, SNum):
        return x
    p = to_poly(x)
    c = p.const()
    return Fraction(c) if c is not None else SNum(p)


def to_boolval(x=False):
    return bool(x)


T_int = TypeTok('int', is_intval, to_int)
T_float = TypeTok('float', is_floatval, to_float)
T_bool = TypeTok('bool', lambda x: isinstance(x, (bool, SBool)), to_boolval)
T_list = TypeTok('list', lambda x: isinstance(x, list))
T_ndarray = TypeTok('ndarray', lambda x: isinstance(x, SArr))
T_npfloat = TypeTok('float64', lambda x: isinstance(x, SNum), to_float)
T_npint = TypeTok('int64', lambda x: isinstance(x, SNum) and x.p.is_int(), to_int)
T_number = TypeTok('number', lambda x: isinstance(x, SNum), to_float)


# ------------------------------------------------------------ elementwise
def ufunc(f, reduce=None):
    """out= and where= of a numpy ufunc"""
    def g(*a, **k):
        out, where = k.pop('out', None), k.pop('where', True)
        if k.pop('casting', 'same_kind') == 'unsafe' or k.pop('dtype', None) not in (None, T_float, T_npfloat):
            raise Unsupported('ufunc options')
        if k:
            raise Unsupported('ufunc options %s' % sorted(k))
        n = f.__code__.co_argcount
        if len(a) == n + 1:
            a, out = a[:n], a[n]
        if isinstance(out, tuple):
            out, = out
        if len(a) != n:
            raise TypeError('wrong number of arguments')
        r = f(*a)
        if out is None:
            if where is not True:
                raise Unsupported('where= without out=')
            return r
        if not isinstance(out, SArr):
            raise TypeError('return arrays must be of ArrayType')
        if isinstance(r, InfT):
            raise Unsupported('infinite array')
        out[...] = r if where is True else np_where(where, r, out)
        return out
    if reduce is not None:
        return UF(g, reduce)
    return g


class UF:
    def __init__(self, f, red):
        self.f, self.red = f, red

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, a, axis=0, **k):
        return self.red(a, axis=axis, **k)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return self.f(A.reshape(a, tuple(W(s) for s in a._shape) + (1,) * b.ndim), b)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('ufunc.%s' % k)


def fn1(name):
    def f(x):
        if isinstance(x, InfT):
            if name in ('exp', 'sqrt', 'log'):
                return InfT(1)
            if name == 'abs':
                return InfT(1)
        return ew(lambda p: fnapp(name, p), x)
    return ufunc(f)


def npexp(x):
    return ew(lambda p: EXP(p), x)


def lg(base):
    def f(x):
        return ew(lambda p: fnapp('log', p) * recip(fnapp('log', P(base))), x)
    return ufunc(f)


def sign(x):
    return ew(lambda p: ITE(LT(ZERO, p), ONE, ITE(LT0(p), -ONE, ZERO)), x)


def power(a, b):
    import vc
    return vc.pow_(a, b)


def mk_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SArr):
        r = A.copy(x)
    elif isinstance(x, (list, tuple)):
        r = A.from_list(x)
    elif x is None or isinstance(x, str):
        raise Unsupported('np.array of object')
    else:
        r = asarr(x)
        r = A.copy(r)
    if r.tag == 'bool' and dtype in (T_float, T_npfloat, 'float64'):
        r = ew(lambda p: p, r)
    elif dtype is not None:
        r = A.converted(r, dtype)
    while r.ndim < ndmin:
        r = A.view(r, [None] + [slice(None)] * r.ndim)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        if dtype is None or A.dtype_cast(dtype) is None and x.buf.cast is None:
            return x
        if A.dtype_cast(dtype) is None:
            # a float array given by the caller is not copied
            src = getattr(x.buf.cast, 'src', None)
            if src is not None and CX.CUR.decide(LT(ZERO, P(var('isfloat:' + src, 'R')))):
                return x
            return A.converted(A.copy(x), dtype)
    return mk_array(x, dtype)


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return [to_poly(x) for x in s]
    return [to_poly(s)]


def const_array(v):
    p = to_poly(v)

    def f(shape, dtype=None, order='C', **k):
        sh = shape_of(shape)
        for s in sh:
            if not CX.CUR.decide(NOT(LT0(s))):
                raise ValueError('negative dimensions are not allowed')
        return of_dtype(newarr(lambda idx: p, sh, tag='num'), dtype)
    return f


def of_dtype(r, dtype):
    """the new array r with element type dtype"""
    return r if dtype is None else A.converted(r, dtype)


def full(shape, v, dtype=None, order='C'):
    va = asarr(v)
    if va.ndim == 0:
        p = va.rawat(())
        # the element type is the one of the value: whole numbers give an integer array
        if dtype is None and (isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SNum) and v.p.is_int()):
            dtype = T_int
        return const_array(p if isinstance(p, Poly) else IV(p))(shape, dtype=dtype)
    sh = shape_of(shape)
    g = bget(va.snap(), va._shape, len(sh))
    return of_dtype(newarr(g, sh), dtype)


def like(v):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        a = asarr(a)
        if dtype is None and a.tag == 'bool':
            dtype = T_bool
        r = of_dtype(newarr(lambda idx: P(v), a._shape if shape is None else shape_of(shape), tag='num'), dtype)
        if dtype is None:
            r.buf.cast = a.buf.cast
        return r
    return f


def full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    r = like(0)(a, dtype, shape=shape)
    r[...] = v
    return r


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    r = empty(a._shape if shape is None else shape, dtype)
    if dtype is None:
        r.buf.cast = a.buf.cast
    return r


def empty(shape, dtype=None, **k):
    sh = shape_of(shape)
    u = CX.CUR.fresh_name('uninit')
    return of_dtype(newarr(lambda idx: app('$' + u, idx), sh, tag='num'), dtype)


def arange(a, b=None, step=None, dtype=None):
    lo, hi = (ZERO, to_poly(a)) if b is None else (to_poly(a), to_poly(b))
    st = ONE if step is None else to_poly(step)
    if st is not ONE:
        c = (hi - lo).const()
        cs = st.const()
        if c is None or cs is None or cs == 0:
            raise Unsupported('arange with symbolic step')
        n = max(0, math.ceil(c / cs))
        return newarr(lambda idx: lo + st * idx[0], (P(n),), tag='num')
    n = hi - lo
    if not CX.CUR.decide(NOT(LT0(n))):
        n = ZERO
    return newarr(lambda idx: lo + idx[0], (n,), tag='num')


def linspace(a, b, num=50, endpoint=True, **k):
    n = to_poly(num)
    lo, hi = to_poly(a), to_poly(b)
    den = (n - ONE) if endpoint else n
    return newarr(lambda idx: lo + (hi - lo) * idx[0] * recip(den), (n,), tag='num')


def np_eye(n, m=None, k=0, dtype=None):
    return A.eye(n, m)


def fin(e):
    return e


def npall(x, axis=None, **k):
    return A.all_(asarr(x), axis)


def npany(x, axis=None, **k):
    return A.any_(asarr(x), axis)


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a._shape, b._shape):
        if p is not q and not CX.CUR.decide(EQ(p, q)):
            return False
    return A.all_(ew(EQ, a, b), None)


def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    r, t = to_poly(rtol), to_poly(atol)
    return ew(lambda p, q: LE(fnapp('abs', p - q), t + r * fnapp('abs', q)), asarr(a), asarr(b))


def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    return A.all_(isclose(a, b, rtol, atol), None)


def nan_to_num(x, **k):
    return x


def finite(x):
    return ewb(lambda b: TRUE, x) if isinstance(x, SArr) else not isinstance(x, InfT)


def np_copy(x):
    return mk_array(x)


def wrapnd(f):
    def g(a, *k, **kw):
        return f(asarr(a), *k, **kw)
    return g


def np_reshape(a, *s, **k):
    if 'newshape' in k:
        s = (k.pop('newshape'),)
    if 'shape' in k:
        s = (k.pop('shape'),)
    return A.reshape(asarr(a), *s, order=k.get('order', 'C'))


def np_dot(a, b):
    return A.dot(a, b)


def np_where(c, *xy):
    if xy:
        return A.where3(c, *xy)
    return A.where1(asarr(c))


def maximum(a, b):
    if isinstance(a, InfT) or isinstance(b, InfT):
        i, o = (a, b) if isinstance(a, InfT) else (b, a)
        return i if i.sign > 0 else o
    return ew(A.pmax, a, b)


def minimum(a, b):
    if isinstance(a, InfT) or isinstance(b, InfT):
        i, o = (a, b) if isinstance(a, InfT) else (b, a)
        return i if i.sign < 0 else o
    return ew(A.pmin, a, b)


class FInfo:
    eps = Fraction(1, 2 ** 52)
    tiny = Fraction(1, 2 ** 1022)
    max = Fraction(2 ** 1023)


class FInfo32:
    eps = Fraction(1, 2 ** 23)


def finfo(t=None):
    return FInfo32 if (t is T_f32 or t == 'float32') else FInfo


T_f32 = TypeTok('float32', lambda x: False, to_float)


def expand_dims(a, axis):
    a = asarr(a)
    key = [slice(None)] * a.ndim
    key.insert(axis % (a.ndim + 1), None)
    return A.view(a, key)


def broadcast_to(a, shape):
    a = asarr(a)
    sh = shape_of(shape)
    g = A.bcast_into(a, sh)
    return newarr(g, sh)


def meshgrid(*a, **k):
    raise Unsupported('meshgrid')


def atl2(*xs):
    return A.atleast_2d(mk_array(xs[0]) if isinstance(xs[0], (list, tuple)) else xs[0])


def count_nonzero(a, axis=None):
    return A.sum_(ewb(lambda b: b, a) if not isinstance(a, SArr) else ew(lambda p: IV(NOT(EQ0(p))), a), axis)


def flatnonzero(a):
    return A.where1(A.ravel(asarr(a)))[0]


def append(a, v, axis=None):
    if axis is None:
        return A.concatenate([A.ravel(asarr(a)), A.ravel(asarr(v))], 0)
    return A.concatenate([a, v], axis)


def broadcast_arrays(*a):
    raise Unsupported('broadcast_arrays')


def delete(a, i, axis=None):
    raise Unsupported('np.delete')


def np_item_or(x):
    return x


def unravel_index(i, shape):
    sh = shape_of(shape)
    return tuple(W(x) for x in A.unlin(to_poly(i), sh))


# ---------------------------------------------------------------- random
trust('rng', 'numpy random generators: every draw is a function of the generator state and index; '
             'uniforms lie in [0,1); choice/permutation without replacement returns distinct '
             'in-range indices; seeding determines the state')


def ax_unit(args, a):
    z = P(a)
    return [NOT(LT0(z)), LT(z, ONE)]


def ax_perm(args, a):
    # perm(state, N, q) in [0,N) and injective (inverse permi)
    st, N, q = args
    z = P(a)
    rng = AND(NOT(LT0(q)), LT(q, N))
    return [IMPL(rng, AND(NOT(LT0(z)), LT(z, N), EQ(app('permi', [st, N, z], 'I'), q)))]


def ax_ridx(args, a):
    N = args[1]
    z = P(a)
    return [IMPL(LT(ZERO, N), AND(NOT(LT0(z)), LT(z, N)))]


prover.AXIOMS['rnd'] = ax_unit
def ax_lhs(args, a):
    # one sample per slice: slice number lhsi, injective in the sample (inverse lhsv)
    s, d, n, i, j = args
    z, q = app('lhs', args), app('lhsi', args, 'I')
    rng = AND(NOT(LT0(i)), LT(i, n))
    return [NOT(LT0(z)), LE(z, ONE),
            IMPL(rng, AND(NOT(LT0(q)), LT(q, n), LE(q, n * z), LE(n * z, q + ONE), EQ(app('lhsv', [s, d, n, q, j], 'I'), i)))]


prover.AXIOMS['lhs'] = prover.AXIOMS['lhsi'] = ax_lhs
prover.AXIOMS['sobol'] = ax_unit
prover.AXIOMS['perm'] = ax_perm
prover.AXIOMS['ridx'] = ax_ridx


class RNG:
    """generator state: an integer token"""
    _vc_heap = True

    def __init__(self, state):
        self.state = state          # SNum (int)

    def _adv(self, kind, *sz):
        s = self.state.p
        args = [s] + [to_poly(x) for x in sz]
        self.state = SNum(app('NEXT_' + kind, args, 'I'))
        return s

    def _draw(self, sym, shape, kind='random'):
        sh = shape_of(shape) if shape is not None else []
        s = self._adv(kind, *sh)
        if not sh:
            return SNum(app(sym, [s]))
        return newarr(lambda idx: app(sym, (s,) + tuple(idx)), sh, tag='num')

    def seed(self, seed=None):
        self.state = seed_state(seed)

    def random(self, size=None):
        return self._draw('rnd', size)

    random_sample = ranf = sample = random

    def rand(self, *d):
        return self._draw('rnd', d if d else None)

    def uniform(self, low=0, high=1, size=None):
        if size is None:
            sh = bshape([asarr(low)._shape, asarr(high)._shape])
            size = tuple(W(x) for x in sh) if sh else None
        u = self._draw('rnd', size)
        return ew(lambda p, a, b: a + (b - a) * p, u, low, high)

    def randn(self, *d):
        return self._draw('rnrm', d if d else None, 'normal')

    def standard_normal(self, size=None):
        return self._draw('rnrm', size, 'normal')

    def normal(self, loc=0, scale=1, size=None):
        if size is None:
            sh = bshape([asarr(loc)._shape, asarr(scale)._shape])
            size = tuple(W(x) for x in sh) if sh else None
        u = self._draw('rnrm', size, 'normal')
        return ew(lambda p, a, b: a + b * p, u, loc, scale)

    def _ints(self, n, size):
        sh = shape_of(size) if size is not None else []
        s = self._adv('randint', n, *sh)
        if not sh:
            return SNum(app('ridx', [s, n], 'I'))
        return newarr(lambda idx: app('ridx', (s, n) + tuple(idx), 'I'), sh, tag='num')

    def randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (ZERO, to_poly(low)) if high is None else (to_poly(low), to_poly(high))
        if not CX.CUR.decide(LT(lo, hi)):
            raise ValueError('low >= high')
        r = self._ints(hi - lo, size)
        return r + SNum(lo) if lo is not ZERO else r

    integers = randint

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            raise Unsupported('weighted choice')
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if isinstance(a, SArr):
            n = a._shape[0]
        else:
            n = to_poly(a)
        if not CX.CUR.decide(LT(ZERO, n)):
            raise ValueError('a must be greater than 0')
        if replace:
            ix = self._ints(n, size)
        else:
            sh = shape_of(size) if size is not None else []
            if len(sh) > 1:
                raise Unsupported('2-d choice without replacement')
            m = sh[0] if sh else ONE
            if not CX.CUR.decide(LE(m, n)):
                raise ValueError('Cannot take a larger sample than population when replace is False')
            # the selection is the head of one permutation of range(n)
            s = self._adv('perm', n)
            if not sh:
                ix = SNum(app('perm', [s, n, ZERO], 'I'))
            else:
                ix = newarr(lambda idx: app('perm', [s, n, idx[0]], 'I'), sh, tag='num')
            if 'choice' in CX.CUR.ghost:
                CX.CUR.ghost['choice'].append((ix, n))
        if isinstance(a, SArr):
            return a[ix]
        return ix

    def permutation(self, a):
        if isinstance(a, SArr):
            return self.choice(a, W(a._shape[0]), replace=False)
        return self.choice(a, a, replace=False)

    def shuffle(self, a):
        if not isinstance(a, SArr):
            raise Unsupported('shuffle of list')
        s = self._adv('perm', SNum(a._shape[0]))
        n = a._shape[0]
        f = a.snap()
        A.region_assign(a, lambda o: f((app('perm', [s, n, o[0]], 'I'),) + tuple(o[1:])))

    def get_state(self, *a, **k):
        return ('state', self.state)

    def set_state(self, s):
        self.state = s[1]


def log_seed(seed):
    CX.CUR.ghost.setdefault('seeds', []).append(None if seed is None else seed if isinstance(seed, RNG) else SNum(to_poly(seed)))


def seed_state(seed):
    log_seed(seed)
    if seed is None:
        return CX.CUR.ghost['entropy']()
    return SNum(app('SEED', [to_poly(seed)], 'I'))


class _GlobalRandom:
    def __init__(self):
        self.RandomState = lambda seed=None: RNG(seed_state(seed))
        self.default_rng = lambda seed=None: seed if isinstance(seed, RNG) else RNG(
            SNum(app('SEEDG', [seed_state(seed).p], 'I')))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        r = CX.CUR.rng
        if not hasattr(r, k):
            raise Unsupported('np.random.%s' % k)
        return getattr(r, k)


class LHSampler:
    _vc_heap = True

    def __init__(self, d, seed=None, scramble=True, strength=1, optimization=None, rng=None, **k):
        if seed is None and rng is not None:
            seed = rng
        log_seed(seed)
        self.d = d
        if isinstance(seed, RNG):
            self.st = seed.state.p
        elif seed is None:
            self.st = CX.CUR.ghost['entropy']().p
        else:
            self.st = to_poly(seed)
        self.st = SNum(self.st)

    def random(self, n=1, workers=1):
        n = to_poly(n)
        s = self.st.p
        self.st = SNum(app('NEXT_lhs', [s, n], 'I'))
        d = to_poly(self.d)
        CX.CUR.ghost.setdefault('lhs', []).append((s, d, n))
        return newarr(lambda i: app('lhs', [s, d, n, i[0], i[1]]), (n, d), tag='num')


class SobolSampler:
    _vc_heap = True

    def __init__(self, d, scramble=True, bits=None, seed=None, optimization=None, rng=None, **k):
        if seed is None and rng is not None:
            seed = rng
        log_seed(seed)
        self.d = d
        if seed is None:
            self.st = CX.CUR.ghost['entropy']()
        elif isinstance(seed, RNG):
            self.st = seed.state
        else:
            self.st = SNum(to_poly(seed))
        self.scr = SNum(P(1)) if scramble is True else SNum(P(0))
        self.pos = SNum(ZERO)

    def reset(self):
        self.pos = SNum(ZERO)
        return self

    def fast_forward(self, n):
        n = to_poly(n)
        if not CX.CUR.decide(NOT(LT0(n))):
            raise Unsupported('negative fast_forward')
        if CX.CUR.decide(AND(EQ(n, ZERO), EQ(self.pos.p, ZERO))):
            raise OverflowError("can't convert negative value to npy_uint64")
        self.pos = SNum(self.pos.p + n)
        return self

    def random(self, n=1, workers=1):
        n = to_poly(n)
        s, d, c, p0 = self.st.p, to_poly(self.d), self.scr.p, self.pos.p
        self.pos = SNum(p0 + n)
        return newarr(lambda i: app('sobol', [s, d, c, p0 + i[0], i[1]]), (n, d), tag='num')

    def random_base2(self, m):
        n = fnapp('pow2', to_poly(m))
        cm = to_poly(m).const()
        if cm is not None:
            n = P(2 ** int(cm))
        else:
            n = app('POW2', [to_poly(m)], 'I')
        return self.random(SNum(n))


def qmc_scale(sample, l_bounds, u_bounds, reverse=False):
    l, u = asarr(l_bounds), asarr(u_bounds)
    if reverse:
        return ew(lambda x, a, b: (x - a) * recip(b - a), sample, l, u)
    return ew(lambda x, a, b: x * (b - a) + a, sample, l, u)


# ------------------------------------------------------------- optimisers
trust('optimisers', 'scipy.optimize.minimize / differential_evolution: the returned x lies within the '
                    'given bounds, fun equals the objective at x, and the result is a function of the '
                    'objective, the start point, the bounds and (differential_evolution) the RNG state')


def _report(what, key):
    """the flags of a search say nothing about the values it returns"""
    n = [SNum(app(what + k, key, 'I')) for k in ('nit', 'nfev', 'status')]
    for k in n[:2]:
        CX.CUR.fact(LE(ONE, k.p))
    return dict(success=SBool(LT(ZERO, app(what + 'ok', key))), nit=n[0], nfev=n[1], status=n[2])


class OptResult:
    _vc_heap = True

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return getattr(self, k)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('OptimizeResult.%s' % k)


def _bounds(bounds):
    if bounds is None:
        return None
    if isinstance(bounds, BoundsT):
        lo, hi = asarr(bounds.lb), asarr(bounds.ub)
        return lo.nsnap(), hi.nsnap(), lo._shape[0]
    b = asarr(bounds)
    if b.ndim != 2:
        raise ValueError('bounds')
    if not CX.CUR.decide(EQ(b._shape[1], P(2))):
        raise ValueError('bounds should be a sequence of pairs')
    f = b.nsnap()
    return (lambda i: f((i[0], ZERO))), (lambda i: f((i[0], ONE))), b._shape[0]


class BoundsT:
    def __init__(self, lb, ub, *k):
        self.lb, self.ub = lb, ub


def _scalar(v):
    if isinstance(v, SArr):
        for s in v._shape:
            if not is_one(s) and not CX.CUR.decide(EQ(s, ONE)):
                raise ValueError('The user-provided objective function must return a scalar value.')
        return v.at(*[ZERO] * v.ndim)
    return to_poly(v)


def _objective_key(fun, n, args):
    """canonical description of the objective: its value at a generic point"""
    gen = newarr(lambda i: app('optv', [i[0]]), (n,), tag='num')
    return _scalar(fun(gen, *args))


def named(V):
    """a name for the term V as a function of the running loop counters"""
    act = [a for a in CX.CUR.active if a in V.fv]
    if len(V.t) <= 1 and not act and V.height == 0:
        return V
    return app('obj#%d' % V.id, [P(a) for a in act] or [ZERO])


def _mkx(sym, key, bnds, n):
    keyargs = list(key)

    def el(i):
        return app(sym, keyargs + [i])
    x = newarr(lambda idx: el(idx[0]), (n,), tag='num')
    if bnds is not None:
        lo, hi, _ = bnds
        v = uvar('b', 'I', 0, n)
        i = (P(v),)
        rng = AND(NOT(mkb('lt', (P(v),))), mkb('lt', (P(v) - n,)))
        CX.CUR.fact(FORALL([v], IMPL(rng, AND(LE(lo(i), el(i[0])), LE(el(i[0]), hi(i))))))
    return x


def vlam(f, n):
    v = uvar('b', 'I', 0, n)
    return lam([v], f((P(v),)))


def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
             tol=None, callback=None, options=None):
    if not isinstance(args, tuple):
        args = (args,)
    if jac or (constraints != () and constraints is not None):
        raise Unsupported('minimize with jac/constraints')
    x0 = A.ravel(asarr(x0))
    n = x0._shape[0]
    b = _bounds(bounds)
    if b is not None and not (b[2] is n or CX.CUR.decide(EQ(b[2], n))):
        raise ValueError('length of x0 != length of bounds')
    V = named(_objective_key(fun, n, args))
    key = [V, vlam(x0.nsnap(), n)]
    if b is not None:
        key += [vlam(b[0], n), vlam(b[1], n)]
    key.append(P(hash_str((method or '') + str(tol))))
    x = _mkx('minx', key, b, n)
    hooks = CX.CUR.ghost.get('minimize')
    f = app('minval', key)        # = fun(x)
    r = OptResult(x=x, fun=SNum(f), message='', **_report('min', key))
    if hooks is not None:
        hooks.append((x, f, b, fun, args, x0))
    return r


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def differential_evolution(func, bounds, args=(), strategy='best1bin', maxiter=1000, popsize=15, tol=None,
                           mutation=None, recombination=None, seed=None, callback=None, disp=False,
                           polish=True, init='latinhypercube', atol=0, updating='immediate', workers=1,
                           constraints=(), x0=None, integrality=None, vectorized=False, rng=None):
    if vectorized:
        raise Unsupported('vectorized differential_evolution')
    if rng is not None and seed is None:
        seed = rng
    if not isinstance(args, tuple):
        args = (args,)
    b = _bounds(bounds)
    n = b[2]
    V = named(_objective_key(func, n, args))
    if seed is None:
        s = CX.CUR.rng._adv('de')
    elif isinstance(seed, RNG):
        s = seed._adv('de')
    else:
        s = seed_state(seed).p
    key = [s, V, vlam(b[0], n), vlam(b[1], n)]
    key.append(P(hash_str('%s|%s|%s' % (strategy, maxiter, popsize))))
    x = _mkx('dex', key, b, n)
    f = app('deval', key)         # = func(x)
    hooks = CX.CUR.ghost.get('de')
    if hooks is not None:
        hooks.append((x, f, b, func, args))
    return OptResult(x=x, fun=SNum(f), message='', **_report('de', key))


# --------------------------------------------------------------- linalg &c
def cho_factor(a, lower=False, **k):
    return (A.cholesky(a), True)


def cho_solve(cl, b, **k):
    L = cl[0]
    return A.solve(L.T, A.solve(L, b))


def solve_triangular(a, b, trans=0, lower=False, **k):
    a = asarr(a)
    if trans in (1, 'T'):
        a = a.T
    return A.solve(a, b)


def cdist(X, Y, metric='euclidean'):
    X, Y = asarr(X), asarr(Y)
    d = A.contract_dim(X._shape[1], Y._shape[1])
    fx, fy = X.nsnap(), Y.nsnap()

    def g(idx):
        v = uvar('k', 'I', 0, d)
        t = fx((idx[0], P(v))) - fy((idx[1], P(v)))
        s = SUM(v, d, t * t)
        return s if metric == 'sqeuclidean' else SQRT(s)
    if metric not in ('euclidean', 'sqeuclidean'):
        raise Unsupported('cdist metric')
    return newarr(g, (X._shape[0], Y._shape[0]))


class Norm:
    @staticmethod
    def cdf(x, loc=0, scale=1):
        return ew(lambda p, m, s: fnapp('Phi', (p - m) * recip(s)), x, loc, scale)

    @staticmethod
    def sf(x, loc=0, scale=1):
        return ew(lambda p, m, s: ONE - fnapp('Phi', (p - m) * recip(s)), x, loc, scale)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return ew(lambda p, m, s: fnapp('phi', (p - m) * recip(s)) * recip(s), x, loc, scale)

    @staticmethod
    def logcdf(x, loc=0, scale=1):
        return ew(lambda p, m, s: fnapp('log', fnapp('Phi', (p - m) * recip(s))), x, loc, scale)


class File:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, *a):
        return 0

    def close(self):
        pass

    def read(self, *a):
        raise Unsupported('file read')


def clock():
    return SNum(P(CX.CUR.fresh('clock')))


class Blank:
    """an object whose every use is a no-op (plots)"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Blank()

    def __call__(self, *a, **k):
        return Blank()

    def __iter__(self):
        return iter([Blank(), Blank()])

    def __getitem__(self, k):
        return Blank()


def do_deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, SArr):
        kb = ('buf', id(x.buf))
        if kb not in memo:
            memo[kb] = Buf(x.buf.f, x.buf.shape)
        r = SArr(memo[kb], x._shape, x.dims, x.tag)
    elif isinstance(x, SList):
        if x.concrete():
            r = SList(0, None, [])
            memo[id(x)] = r
            for y in x.tail:
                list.append(r, do_deepcopy(y, memo))
        else:
            el = x.elem
            r = SList(x.n, lambda i: do_deepcopy(el(i)), [do_deepcopy(y, memo) for y in x.tail])
    elif isinstance(x, (list, tuple)):
        r = type(x)(do_deepcopy(y, memo) for y in x)
    elif isinstance(x, dict):
        r = {k: do_deepcopy(v, memo) for k, v in x.items()}
    elif hasattr(x, '__dict__') and (getattr(type(x), '_vc_heap', False) or getattr(type(x), '_vc_user', False)):
        r = object.__new__(type(x))
        memo[id(x)] = r
        for k, v in x.__dict__.items():
            r.__dict__[k] = do_deepcopy(v, memo)
    else:
        r = x
    memo[id(x)] = r
    return r


def do_copy(x):
    if isinstance(x, SArr):
        return A.copy(x)
    if isinstance(x, list):
        return x.copy()
    if isinstance(x, dict):
        return dict(x)
    if hasattr(x, '__dict__'):
        r = object.__new__(type(x))
        r.__dict__.update(x.__dict__)
        return r
    return x


def noreduce(*a, **k):
    raise Unsupported('reduce of this ufunc')


def ptp(a, axis=None, out=None, keepdims=False):
    a = asarr(a)
    return A.max_(a, axis=axis, keepdims=keepdims) - A.min_(a, axis=axis, keepdims=keepdims)


def _at(a, axis, key):
    k = [slice(None)] * a.ndim
    k[axis % a.ndim] = key
    return A.getitem(a, tuple(k))


def take(a, indices, axis=None, out=None, mode='raise'):
    a = asarr(a)
    if axis is None:
        a, axis = A.ravel(a), 0
    if isinstance(indices, (list, tuple)):
        indices = mk_array(indices)
    return _at(a, axis, indices)


def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    if kw or n != 1:
        raise Unsupported('diff with further arguments')
    return _at(a, axis, slice(1, None)) - _at(a, axis, slice(None, -1))


def flip(a, axis=None):
    a = asarr(a)
    axes = [i % a.ndim for i in A.norm_axis(axis, a.ndim)]
    f, sh = a.nsnap(), list(a._shape)
    return A.newarr(lambda ix: f(tuple(sh[i] - ONE - j if i in axes else j for i, j in enumerate(ix))), sh)


def split(a, k, axis=0):
    a = asarr(a)
    n = a._shape[axis % a.ndim]
    if isinstance(k, (list, tuple)):
        cut = [None] + list(k) + [None]
    else:
        k = int(k)
        n = n.const() if hasattr(n, 'const') else None
        if n is None:
            raise Unsupported('split of a symbolic axis')
        n = int(n)
        if n % k:
            raise ValueError('array split does not result in an equal division')
        cut = [i * (n // k) for i in range(k + 1)]
    return [_at(a, axis, slice(p, q)) for p, q in zip(cut, cut[1:])]


def copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        raise Unsupported('copyto with where=')
    dst[...] = src


def delete(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = A.ravel(a), 0
    if not isinstance(obj, int) or isinstance(obj, bool):
        raise Unsupported('delete of several rows')
    if obj == -1:
        return A.copy(_at(a, axis, slice(None, -1)))
    if obj < 0:
        raise Unsupported('delete counted from the end')
    return A.concatenate([_at(a, axis, slice(None, obj)), _at(a, axis, slice(obj + 1, None))], axis)


def _tri(keep):
    def f(a, k=0):
        a = asarr(a)
        g = a.nsnap()
        return A.newarr(lambda ix: ITE(keep(ix[-2] + P(k), ix[-1]), g(ix), ZERO), list(a._shape))
    return f


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = A.dot(r, x)
    return r


def build():
    lin = Mod('numpy.linalg', cholesky=A.cholesky, solve=A.solve, inv=A.inv_, norm=A.norm,
              LinAlgError=A.LinAlgErr, pinv=A.inv_, multi_dot=multi_dot)
    rnd = _GlobalRandom()
    np = Mod('numpy', ndarray=T_ndarray, float64=T_npfloat, float32=T_f32, int64=T_npint, int32=T_npint,
             floating=T_number, integer=T_npint, number=T_number, bool_=T_bool, double=T_npfloat,
             inf=InfT(1), Inf=InfT(1), pi=SNum(P(PI)), e=SNum(EXP(ONE)), newaxis=None,
             exp=ufunc(npexp), log=fn1('log'), sqrt=fn1('sqrt'), sin=fn1('sin'), cos=fn1('cos'), tan=fn1('tan'),
             abs=fn1('abs'), absolute=fn1('abs'), fabs=fn1('abs'), floor=fn1('floor'),
             log10=lg(10), log2=lg(2), tanh=fn1('tanh'), arctan=fn1('arctan'), sinh=fn1('sinh'),
             cosh=fn1('cosh'), log1p=ufunc(lambda x: ew(lambda p: fnapp('log', ONE + p), x)),
             expm1=ufunc(lambda x: ew(lambda p: EXP(p) - ONE, x)),
             square=ufunc(lambda x: ew(lambda p: p * p, x)), power=ufunc(power), float_power=ufunc(power),
             sign=ufunc(sign), negative=ufunc(lambda x: ew(lambda p: -p, x)), reciprocal=ufunc(lambda x: ew(recip, x)),
             add=ufunc(lambda a, b: ew(OPS['add'], a, b), A.sum_), subtract=ufunc(lambda a, b: ew(OPS['sub'], a, b), noreduce),
             multiply=ufunc(lambda a, b: ew(OPS['mul'], a, b), A.prod_), divide=ufunc(lambda a, b: ew(OPS['div'], a, b)),
             true_divide=ufunc(lambda a, b: ew(OPS['div'], a, b)), mod=ufunc(lambda a, b: ew(OPS['mod'], a, b)),
             maximum=ufunc(maximum, A.max_), minimum=ufunc(minimum, A.min_), fmax=ufunc(maximum), fmin=ufunc(minimum), clip=A.clip, where=np_where,
             array=mk_array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray, copy=np_copy,
             zeros=const_array(0), ones=const_array(1), empty=empty, full=full,
             zeros_like=like(0), ones_like=like(1), empty_like=empty_like,
             full_like=full_like, array_equal=array_equal, isclose=isclose, allclose=allclose,
             eye=np_eye, identity=np_eye, diag=A.diag, diagonal=A.diag, trace=A.trace, arange=arange, linspace=linspace,
             dot=np_dot, matmul=A.matmul, inner=lambda a, b: A.dot(a, asarr(b).T), outer=A.outer, einsum=A.einsum,
             vdot=lambda a, b: A.dot(A.ravel(asarr(a)), A.ravel(asarr(b))),
             sum=A.sum_, prod=A.prod_, mean=A.mean_, average=A.mean_, std=A.std_, var=A.var_,
             min=A.min_, max=A.max_, amin=A.min_, amax=A.max_, nanmin=A.min_, nanmax=A.max_,
             argmin=A.argmin, argmax=A.argmax,
             nanargmin=A.argmin, all=npall, any=npany, cumsum=A.cumsum,
             ptp=ptp, take=take, diff=diff, flip=flip, split=split, copyto=copyto, delete=delete,
             nansum=A.sum_, triu=_tri(lambda i, j: LE(i, j)), tril=_tri(lambda i, j: LE(j, i)),
             flipud=lambda a: flip(a, 0), fliplr=lambda a: flip(a, 1),
             hypot=ufunc(lambda a, b: fn1('sqrt')(ew(OPS['add'], ew(lambda p: p * p, a), ew(lambda p: p * p, b)))),
             ceil=ufunc(lambda x: ew(lambda p: -fnapp('floor', -p), x)),
             vstack=A.vstack, hstack=A.hstack, concatenate=A.concatenate, column_stack=A.column_stack,
             row_stack=A.vstack, stack=A.stack, append=append,
             tile=A.tile, repeat=A.repeat, reshape=np_reshape, ravel=wrapnd(A.ravel), squeeze=wrapnd(A.squeeze),
             transpose=wrapnd(A.transpose), swapaxes=wrapnd(A.swapaxes), expand_dims=expand_dims,
             broadcast_to=broadcast_to, atleast_1d=lambda x: A.atleast_1d(mk_array(x) if isinstance(x, (list, tuple)) else x),
             atleast_2d=atl2, shape=lambda a: asarr(a).shape, size=lambda a: asarr(a).size,
             ndim=lambda a: asarr(a).ndim, isfinite=finite,
             isscalar=lambda x: isinstance(x, (int, Fraction, SNum, InfT)),
             isnan=ufunc(lambda x: ewb(lambda b: FALSE, x)), isinf=lambda x: isinstance(x, InfT),
             logical_and=ufunc(lambda a, b: ewb(AND, a, b), npall), logical_or=ufunc(lambda a, b: ewb(OR, a, b), npany),
             logical_not=ufunc(lambda a: ewb(NOT, a)), finfo=finfo, nonzero=lambda a: A.where1(asarr(a)),
             flatnonzero=flatnonzero, count_nonzero=count_nonzero, unravel_index=unravel_index,
             less=ufunc(lambda a, b: ew(LT, a, b)), less_equal=ufunc(lambda a, b: ew(LE, a, b)),
             greater=ufunc(lambda a, b: ew(LT, b, a)), greater_equal=ufunc(lambda a, b: ew(LE, b, a)),
             equal=ufunc(lambda a, b: ew(EQ, a, b)), not_equal=ufunc(lambda a, b: ew(lambda p, q: NOT(EQ(p, q)), a, b)), set_printoptions=lambda *a, **k: None,
             errstate=File, seterr=lambda *a, **k: {},
             linalg=lin, random=rnd)
    norm = Norm()
    stats_qmc = Mod('scipy.stats.qmc', LatinHypercube=LHSampler, Sobol=SobolSampler, scale=qmc_scale)
    stats = Mod('scipy.stats', norm=norm, qmc=stats_qmc)
    opt = Mod('scipy.optimize', minimize=minimize, differential_evolution=differential_evolution, Bounds=BoundsT)
    slin = Mod('scipy.linalg', cho_factor=cho_factor, cho_solve=cho_solve, cholesky=lambda a, lower=False, **k: A.cholesky(a)
               if lower else A.cholesky(a).T, solve_triangular=solve_triangular, solve=A.solve, inv=A.inv_)
    sdist = Mod('scipy.spatial.distance', cdist=cdist)
    sspat = Mod('scipy.spatial', distance=sdist)
    scipy = Mod('scipy', stats=stats, optimize=opt, linalg=slin, spatial=sspat)
    plt = Blank()
    mat = Mod('matplotlib', pyplot=plt)
    mmath = Mod('math', pi=SNum(P(PI)), e=SNum(EXP(ONE)), inf=InfT(1), sqrt=fn1('sqrt'), exp=npexp, log=fn1('log'),
                sin=fn1('sin'), cos=fn1('cos'), floor=lambda x: to_int(x), fabs=fn1('abs'),
                ceil=lambda x: -to_int(-x) if False else SNum(-fnapp('floor', -to_poly(x))),
                prod=lambda x: A.prod_(asarr(list(x))), pow=power, tan=fn1('tan'))
    import abc
    import typing
    import functools
    import itertools as it
    import warnings
    import collections
    import dataclasses
    import enum
    return {
        'numpy': np, 'numpy.linalg': lin, 'numpy.random': rnd, 'scipy': scipy, 'scipy.stats': stats,
        'scipy.stats.qmc': stats_qmc, 'scipy.optimize': opt, 'scipy.linalg': slin,
        'scipy.spatial': sspat, 'scipy.spatial.distance': sdist, 'matplotlib': mat, 'matplotlib.pyplot': plt,
        'pickle': Mod('pickle', dump=lambda *a, **k: None),
        'time': Mod('time', time=clock, perf_counter=clock, process_time=clock, sleep=lambda *a: None),
        'math': mmath, 'copy': Mod('copy', deepcopy=do_deepcopy, copy=do_copy), 'os': Blank(), 'sys': Blank(),
        'abc': abc, 'typing': Mod('typing', **{k: getattr(typing, k) for k in (
            'Any', 'Callable', 'Optional', 'Union', 'Sequence', 'Iterable', 'NamedTuple', 'TypeVar', 'Generic')},
            List=T_list, Tuple=TypeTok('tuple', lambda x: isinstance(x, tuple)),
            Dict=TypeTok('dict', lambda x: isinstance(x, dict)), TYPE_CHECKING=False),
        'warnings': Mod('warnings', warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
                        filterwarnings=lambda *a, **k: None),
        'functools': functools, 'itertools': Mod('itertools', product=it.product, chain=it.chain,
                                                 combinations=it.combinations),
        'collections': collections, 'dataclasses': dataclasses, 'enum': enum, 'logging': Blank(),
        '__future__': Mod('__future__', annotations=None),
    }
