"""numpy array operations on symbolic arrays: indexing (views/copies with numpy
aliasing), assignment, reductions, products, linear algebra, stacking."""
import weakref
from fractions import Fraction
import ctx as CX
import ir
from ir import *
from sym import *
from sym import is_one, bget, bshape
import sym


def D(b):
    return CX.CUR.decide(b)


def fixdims(shape):
    return tuple(P(s) if not isinstance(s, (SNum, SArr)) else to_poly(s) for s in shape)


def fullslice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step in (None, 1)


def norm_index(i, n):
    """wrap/bounds-check an integer index"""
    i = to_poly(i)
    if D(LT0(i)):
        i = i + n
        if not D(NOT(LT0(i))):
            raise IndexError('index out of bounds')
    elif not D(LT(i, n)):
        raise IndexError('index %s is out of bounds for axis with size %s' % (show(i), show(n)))
    return i


def norm_slice(k, n):
    """-> (start, size, step) for 0 <= start; step 1 or -1 or const>0"""
    step = k.step
    if step is not None:
        step = to_poly(step).const()
        if step is None:
            raise Unsupported('symbolic slice step')
        step = int(step)
    else:
        step = 1
    if step == -1:
        if k.start is not None or k.stop is not None:
            raise Unsupported('partial reversed slice')
        return n - ONE, n, -1
    if step < 1:
        raise Unsupported('slice step %d' % step)

    def clamp(x):
        if D(LT0(x)):
            x = x + n
            if D(LT0(x)):
                return ZERO
            return x
        if D(LE(x, n)):
            return x
        return n
    s = clamp(to_poly(k.start)) if k.start is not None else ZERO
    e = clamp(to_poly(k.stop)) if k.stop is not None else n
    if not D(LE(s, e)):
        return s, ZERO, step
    sz = e - s
    if step > 1:
        c = sz.const()
        if c is None:
            q = fnapp('floor', (sz + P(step - 1)).scale(Fraction(1, step)))
            sz = q
        else:
            sz = P(-(-int(c) // step))
    return s, sz, step


def _is_intarr(k):
    return isinstance(k, (SArr, list, SList)) and not isinstance(k, (SNum,))


def _isbool_arr(a):
    """is the element function Bool valued? (probe)"""
    t = a.tag
    if t == 'bool':
        return True
    if t == 'num':
        return False
    vs = [P(uvar('pr', 'I', 0, s)) for s in a._shape]
    v = a.rawat(vs)
    r = isinstance(v, Bool)
    a.tag = 'bool' if r else 'num'
    return r


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.ndim > 1 and _isbool_arr(k):
            used += k.ndim
        else:
            used += 1
    if used > a.ndim:
        raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed'
                         % (a.ndim, used))
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (a.ndim - used)
    else:
        key += [slice(None)] * (a.ndim - used)
    return key


def is_basic(k):
    if k is None or isinstance(k, slice):
        return True
    if isinstance(k, bool) or isinstance(k, SBool):
        return False
    if isinstance(k, (int, SNum, Poly)):
        return True
    if isinstance(k, Fraction):
        if k.denominator == 1:
            raise IndexError('only integers are valid indices')
        raise IndexError('only integers are valid indices')
    if isinstance(k, SArr) and k.ndim == 0:
        return True
    return False


def view(a, key):
    """basic indexing -> view"""
    ax = 0
    shape = []
    sub = []              # per input out-axis: ('fix', e)|('dim', newaxis, start, step)
    for k in key:
        if k is None:
            shape.append(ONE)
        elif isinstance(k, slice):
            n = a._shape[ax]
            if fullslice(k):
                sub.append(('dim', len(shape), ZERO, 1))
                shape.append(n)
            else:
                s, sz, st = norm_slice(k, n)
                sub.append(('dim', len(shape), s, st))
                shape.append(sz)
            ax += 1
        else:
            e = norm_index(k, a._shape[ax])
            sub.append(('fix', e))
            ax += 1
    dims = []
    for d in a.dims:
        if d[0] == 'fix':
            dims.append(d)
        else:
            s = sub[d[1]]
            if s[0] == 'fix':
                dims.append(('fix', s[1].scale(d[3]) + d[2]))
            else:
                dims.append(('dim', s[1], s[2].scale(d[3]) + d[2], s[3] * d[3]))
    return SArr(a.buf, shape, dims)


def mask_lam(m):
    """0/1 Lam of a (1-d effective) mask and the axis carrying the size"""
    eff = [i for i, s in enumerate(m._shape) if not is_one(s)]
    if len(eff) > 1:
        return None
    ax = eff[0] if eff else 0
    n = m._shape[ax]
    v = uvar('mk', 'I', 0, n)
    idx = [ZERO] * m.ndim
    idx[ax] = P(v)
    b = to_bool(m.rawat(idx))
    return lam([v], IV(b)), n, ax


def to_key_arrays(a, key):
    """expand boolean masks into integer arrays; returns new key list"""
    out = []
    for k in key:
        if isinstance(k, list) or isinstance(k, SList) or (isinstance(k, tuple)):
            k = asarr(list(k) if not isinstance(k, SList) else k)
        if isinstance(k, (bool, SBool)):
            raise Unsupported('scalar boolean index')
        if isinstance(k, SArr) and k.ndim >= 1 and _isbool_arr(k):
            arrs = where1(k)
            axis = len([z for z in out if z is not None])
            for q, s in enumerate(k._shape):
                c = EQ(s, a._shape[axis + q])
                if not D(c):
                    raise IndexError('boolean index did not match indexed array')
            out.extend(arrs)
        else:
            out.append(k)
    return out


def where1(m):
    """np.where(mask) -> tuple of integer arrays"""
    ml = mask_lam(m)
    if ml is None:
        # general case: enumeration over the flattened index
        raise Unsupported('np.where over a %d-d mask' % m.ndim)
    l, n, ax = ml
    card = ENUM('CARD', l, n)
    res = []
    for q in range(m.ndim):
        if q == ax:
            r = newarr(lambda idx: ENUM('EN', l, n, idx[0]), (card,), tag='num')
            r.where = (l, n)
        else:
            r = newarr(lambda idx: ZERO, (card,), tag='num')
        res.append(r)
    return tuple(res)


def fancy_map(a, key):
    """(out shape, fn out idx -> in idx, inverse or None)"""
    arrs = [k for k in key if isinstance(k, SArr)]
    # ints mixed with arrays broadcast as arrays
    pos = [i for i, k in enumerate(key) if k is not None and not isinstance(k, slice)]
    fsh = bshape([asarr(key[i])._shape for i in pos])
    nf = len(fsh)
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    shape = []
    where_f = None
    spec = []
    ax = 0
    if not contiguous:
        where_f = 0
        shape = list(fsh)
    for i, k in enumerate(key):
        if k is None:
            shape.append(ONE)
        elif isinstance(k, slice):
            s, sz, st = norm_slice(k, a._shape[ax])
            spec.append(('s', len(shape), s, st))
            shape.append(sz)
            ax += 1
        else:
            if where_f is None:
                where_f = len(shape)
                shape.extend(fsh)
            n = a._shape[ax]
            ka = asarr(k)
            g = bget(ka.snap(), ka._shape, nf)
            # bounds / negative wrap
            vs = [uvar('fi', 'I', 0, s) for s in fsh]
            e = g(tuple(P(v) for v in vs))
            rng = AND(*[AND(mkb('lt', (P(v) - s,)), NOT(mkb('lt', (P(v),)))) for v, s in zip(vs, fsh)])
            if getattr(ka, 'where', None) is not None and ka.where[1] is n:
                neg = False
            elif e.const() is not None:
                e2 = norm_index(SNum(e), n)
                neg = e2 is not e
            else:
                inr = AND(LE(ZERO, e), LT(e, n))
                ok = inr is TRUE or CX.CUR.prove(FORALL(vs, IMPL(rng, inr)))
                neg = False
                if not ok:
                    if CX.CUR.prove(FORALL(vs, IMPL(rng, AND(LE(-n, e), LT(e, ZERO))))):
                        neg = True
                    else:
                        if D(FORALL(vs, IMPL(rng, AND(LE(-n, e), LT(e, n))))):
                            neg = 'maybe'
                        else:
                            raise IndexError('fancy index out of bounds')
            spec.append(('f', g, n, neg))
            ax += 1
    off = where_f

    def m(idx):
        fidx = tuple(idx[off:off + nf])
        out = []
        for sp in spec:
            if sp[0] == 's':
                out.append(idx[sp[1]].scale(sp[3]) + sp[2])
            else:
                e = sp[1](fidx)
                if sp[3] is True:
                    e = e + sp[2]
                elif sp[3] == 'maybe':
                    e = ITE(LT0(e), e + sp[2], e)
                out.append(e)
        return tuple(out)
    return shape, m, spec, off, nf, fsh


def getitem(a, key):
    key = expand_key(a, key)
    if all(is_basic(k) for k in key):
        v = view(a, key)
        if not v._shape:
            x = v.rawat(())
            return wrapv(x)
        return v
    if len(key) == 1 and isinstance(key[0], (SArr,)) and key[0].ndim > 1 and _isbool_arr(key[0]) \
            and mask_lam(key[0]) is None:
        raise Unsupported('selection by a 2-d mask')
    key = to_key_arrays(a, key)
    shape, m, *_ = fancy_map(a, key)
    f = a.snap()
    return newarr(lambda idx: f(m(idx)), shape)


def region_assign(v, valf):
    """assign to view v: out index -> value (Poly)"""
    buf = v.buf
    old = buf.f
    if buf.shares:
        check_shares(buf)
    if buf.cast is not None:
        valf = (lambda o, h=valf, c=buf.cast: c(h(o)))
    dims = v.dims
    shape = v._shape
    bsh = buf.shape
    n = len(shape)

    def f(b):
        conds = []
        out = [ZERO] * n
        for ax, d in enumerate(dims):
            if d[0] == 'fix':
                c = EQ(b[ax], d[1])
                if c is FALSE:
                    return old(b)
                conds.append(c)
            else:
                o = b[ax] - d[2]
                if d[3] == -1:
                    o = d[2] - b[ax]
                elif d[3] != 1:
                    st = d[3]
                    q = fnapp('floor', o.scale(Fraction(1, st)))
                    conds.append(EQ(q.scale(st), o))
                    o = q
                out[d[1]] = o
                sz = shape[d[1]]
                if not (d[3] == 1 and d[2] is ZERO and sz is bsh[ax]):
                    c1, c2 = NOT(LT0(o)), LT(o, sz)
                    if c1 is FALSE or c2 is FALSE:
                        return old(b)
                    conds += [c1, c2]
        c = AND(*conds)
        if c is FALSE:
            return old(b)
        new = valf(tuple(out))
        if c is TRUE:
            return new
        o = old(b)
        if isinstance(new, Bool) and isinstance(o, Bool):
            return OR(AND(c, new), AND(NOT(c), o))
        if isinstance(new, Bool):
            new = IV(new)
        if isinstance(o, Bool):
            o = IV(o)
        return ITE(c, new, o)
    buf.set(f)


def bcast_into(val, shape):
    """value function for assignment of val into shape"""
    va = asarr(val)
    vs = list(va._shape)
    while len(vs) > len(shape):
        if not is_one(vs[0]) and not D(EQ(vs[0], ONE)):
            raise ValueError('could not broadcast input array into shape')
        f0 = va.snap()
        va = newarr(lambda idx, f0=f0: f0((ZERO,) + idx), vs[1:])
        vs = vs[1:]
    for k in range(len(vs)):
        s = vs[len(vs) - 1 - k]
        t = shape[len(shape) - 1 - k]
        if s is t or is_one(s):
            continue
        if not D(EQ(s, t)):
            if not D(EQ(s, ONE)):
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (
                    [show(x) for x in vs], [show(x) for x in shape]))
    return bget(va.snap(), tuple(vs), len(shape))


_written = {}


def opaque_write(g, n):
    """option wopaque=N: assigned rows whose content is an expression of more than
    N distinct atoms are named by a symbol of the free variables (sound: the
    symbol has no other meaning; equal expressions have the same symbol)"""
    lim = getattr(CX.CUR.ver, 'wopaque', None)
    if not lim:
        return g
    vs = [var('@w%d' % i, 'I') for i in range(n)]
    x = g(tuple(P(a) for a in vs))
    import explore
    if not isinstance(x, Poly) or not explore.bigger(x, lim, True) or explore.mentions(x, CX.CUR.ver.keep):
        return g
    nm = _written.get(x)
    if nm is None:
        nm = _written[x] = '$w%d' % len(_written)
    fv = [P(a) for a in sorted(set(x.fv) - set(vs), key=lambda a: str(a.data[0]))]
    srt = "I" if x.is_int() else "R"
    return lambda o: app(nm, fv + list(o), srt)


def setitem(a, key, val):
    key = expand_key(a, key)
    if isinstance(val, InfT):
        val = SNum(to_poly(val))
    if all(is_basic(k) for k in key):
        v = view(a, key)
        if not v._shape:
            # scalar position: size-1 arrays are accepted
            if isinstance(val, (list, tuple)):
                val = asarr(val)
            if isinstance(val, SArr):
                for s in val._shape:
                    if not is_one(s) and not D(EQ(s, ONE)):
                        raise ValueError('setting an array element with a sequence.')
                p = val.rawat([ZERO] * val.ndim)
            else:
                p = to_poly(val) if not isinstance(val, SBool) else val.b
            region_assign(v, lambda o: p)
            return
        if isinstance(val, SArr) and val.buf is v.buf and val.dims == v.dims and val._shape == v._shape:
            return      # a view assigned to itself
        g = bcast_into(val, v._shape)
        region_assign(v, opaque_write(g, len(v._shape)))
        return
    # whole-array boolean mask
    if len(key) == 1 and isinstance(key[0], SArr) and _isbool_arr(key[0]) and key[0].ndim >= 1 and \
            key[0].ndim == a.ndim and (mask_lam(key[0]) is None or not isinstance(val, SArr) or is1(val)):
        m = key[0]
        for s, t in zip(m._shape, a._shape):
            if not D(EQ(s, t)):
                raise IndexError('boolean index did not match')
        va = asarr(val)
        if not is1(va):
            raise Unsupported('array assigned through a 2-d mask')
        p = va.rawat([ZERO] * va.ndim)
        mf = m.snap()
        oldv = a.snap()
        region_assign(a, lambda o: ITE(to_bool(mf(o)), p if isinstance(p, Poly) else IV(p), _iv(oldv(o))))
        return
    key = to_key_arrays(a, key)
    shape, mp, spec, off, nf, fsh = fancy_map(a, key)
    g = bcast_into(val, shape)
    # supported: one enumerating (where) index array, or constant-size index array
    fa = [i for i, sp in enumerate(spec) if sp[0] == 'f']
    wh = []
    for i, k in enumerate([k for k in key if k is not None]):
        if isinstance(k, SArr) and getattr(k, 'where', None) is not None:
            wh.append((i, k.where))
    oldv = a.snap()
    if len(wh) == 1 and nf == 1:
        ax, (l, n) = wh[0]

        def val_at(o):
            conds = []
            idx = [None] * len(shape)
            rk = ENUM('RK', l, n, o[ax])
            conds.append(NOT(EQ0(inst(l, [o[ax]]))))
            for i, sp in enumerate(spec):
                if sp[0] == 's':
                    t = o[i] - sp[2]
                    if sp[3] != 1:
                        raise Unsupported('stepped slice with mask')
                    idx[sp[1]] = t
                    conds += [NOT(LT0(t)), LT(t, shape[sp[1]])]
                elif i != ax:
                    e = sp[1]((rk,))
                    if sp[3] is True:
                        e = e + sp[2]
                    conds.append(EQ(o[i], e))
            idx[off] = rk
            idx = [ZERO if x is None else x for x in idx]
            c = AND(*conds)
            if c is FALSE:
                return _iv(oldv(o))
            return ITE(c, _iv(g(tuple(idx))), _iv(oldv(o)))
        region_assign(a, val_at)
        return
    # constant number of positions: sequential assignment
    cs = [s.const() for s in fsh]
    if all(c is not None for c in cs):
        import itertools
        for fi in itertools.product(*[range(int(c)) for c in cs]):
            fidx = tuple(P(i) for i in fi)
            k2 = []
            for sp in spec:
                if sp[0] == 's':
                    k2.append(slice(SNum(sp[2]), SNum(sp[2] + shape[sp[1]])))
                else:
                    e = sp[1](fidx)
                    k2.append(SNum(e))
            v = view(a, k2)
            outaxes = [sp[1] for sp in spec if sp[0] == 's']

            def vf(o, fidx=fidx):
                full = [None] * len(shape)
                for q in range(nf):
                    full[off + q] = fidx[q]
                for q, x in zip(outaxes, o):
                    full[q] = x
                return _iv(g(tuple(full)))
            region_assign(v, vf)
        return
    # identity / injective affine index  idx[q] = q + c
    if nf == 1 and len(fa) >= 1:
        ax = fa[0]
        v = uvar('q', 'I', 0, fsh[0])
        e = spec[ax][1]((P(v),))
        c = e - P(v)
        if v not in c.fv and len(fa) == 1:
            def val_at(o):
                q = o[ax] - c
                idx = [None] * len(shape)
                conds = [NOT(LT0(q)), LT(q, fsh[0])]
                for i, sp in enumerate(spec):
                    if sp[0] == 's':
                        idx[sp[1]] = o[i] - sp[2]
                        conds += [NOT(LT0(idx[sp[1]])), LT(idx[sp[1]], shape[sp[1]])]
                idx[off] = q
                return ITE(AND(*conds), _iv(g(tuple(idx))), _iv(oldv(o)))
            region_assign(a, val_at)
            return
    raise Unsupported('assignment through a general index array')


def _iv(x):
    return IV(x) if isinstance(x, Bool) else x


def is1(a):
    a = asarr(a)
    return all(is_one(s) for s in a._shape)


# --------------------------------------------------------------- creation
def from_list(x):
    """np.array of a (nested) list"""
    if isinstance(x, SList):
        return from_slist(x)
    x = list(x)
    if not x:
        return newarr(lambda idx: ZERO, (0,))
    items = [asarr(v) if not isinstance(v, SArr) else v for v in x]
    sh = items[0]._shape
    for it in items[1:]:
        if len(it._shape) != len(sh):
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        for s, t in zip(it._shape, sh):
            if s is not t and not D(EQ(s, t)):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
    fs = [it.snap() for it in items]

    def f(idx):
        i = idx[0]
        c = i.const()
        if c is not None and 0 <= c < len(fs):
            return fs[int(c)](idx[1:])
        r = fs[-1](idx[1:])
        for q in range(len(fs) - 2, -1, -1):
            v = fs[q](idx[1:])
            if isinstance(v, Bool) and isinstance(r, Bool):
                cc = EQ(i, P(q))
                r = OR(AND(cc, v), AND(NOT(cc), r))
            else:
                r = ITE(EQ(i, P(q)), _iv(v), _iv(r))
        return r
    return newarr(f, (P(len(fs)),) + tuple(sh))


def from_slist(x):
    v = uvar('sl', 'I', 0, x.length())
    e = x.get(P(v)) if not (x.n is ZERO) else None
    if e is None:
        return from_list(x.tail)
    ea = asarr(e)
    sh = ea._shape
    if any(v in s.fv for s in sh):
        raise Unsupported('ragged list')
    if not x.tail:
        el = x.elem

        def f(idx):
            return asarr(el(idx[0])).rawat(idx[1:])
    else:
        def f(idx):
            return asarr(x2.get(idx[0])).rawat(idx[1:])
        x2 = x.copy()
    return newarr(f, (x.length(),) + tuple(sh))


def copy(a):
    f = a.snap()
    r = newarr(f, a._shape, tag=a.tag)
    r.buf.cast = a.buf.cast
    return r


def arg_cast(name):
    """element type of an array given by the caller: integers fit, its own
    elements fit, anything else may be rounded (an unknown function)"""
    fn = 'dtcast:' + name

    def cast(p):
        if isinstance(p, Bool) or p.is_int():
            return p
        if len(p.t) == 1:
            (m, c), = p.t
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.kind == 'app' and a.data[0] in (name, fn):
                    return p
        return app(fn, [p])
    cast.src = name
    return cast


def trunc(p):
    if isinstance(p, Bool):
        return IV(p)
    return p if p.is_int() else ITE(LT0(p), -fnapp('floor', -p), fnapp('floor', p))


def dtype_cast(t):
    """conversion to a dtype; None: floating point (values kept)"""
    import np_shim as N
    if t is None or t in (N.T_float, N.T_npfloat, N.T_number, float, 'float', 'float64', 'd', 'f8', '<f8'):
        return None
    if t in (N.T_int, N.T_npint, int, 'int', 'int64', 'i8', 'int32', 'i4'):
        return trunc
    if t in (N.T_bool, bool, 'bool'):
        return lambda p: IV(p if isinstance(p, Bool) else NOT(EQ0(p)))
    raise Unsupported('dtype %r' % (t,))


# ---------------------------------------------------------------- reshape
def shape_args(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return [to_poly(x) for x in s]


def total(shape):
    r = ONE
    for s in shape:
        r = r * s
    return r


def reshape(a, *s, order='C'):
    if order != 'C' and sum(not is_one(x) for x in a._shape) > 1:
        raise Unsupported('reshape with order=%r' % (order,))
    new = shape_args(s)
    m1 = [i for i, x in enumerate(new) if x.const() == -1]
    tot = total(a._shape)
    if m1:
        rest = total([x for i, x in enumerate(new) if i not in m1])
        if rest is ONE:
            q = tot
        else:
            q = tot * recip(rest)
            if not q.is_int():
                if tot.const() is not None and rest.const() is not None:
                    raise ValueError('cannot reshape array of size %s' % show(tot))
                raise Unsupported('reshape with inferred dimension %s' % show(q))
        new[m1[0]] = q
    else:
        t2 = total(new)
        if t2 is not tot and not D(EQ(t2, tot)):
            raise ValueError('cannot reshape array of size %s into shape %s' % (show(tot), [show(x) for x in new]))
    olds = [(i, x) for i, x in enumerate(a._shape) if not is_one(x)]
    news = [(i, x) for i, x in enumerate(new) if not is_one(x)]
    # sizes equal modulo the path condition
    if len(olds) == len(news) and all(x is y or CX.CUR.prove(EQ(x, y)) for (_, x), (_, y) in zip(olds, news)):
        amap = {i: j for (i, _), (j, _) in zip(olds, news)}
        dims = []
        for d in a.dims:
            if d[0] == 'fix':
                dims.append(d)
            elif d[1] in amap:
                dims.append(('dim', amap[d[1]], d[2], d[3]))
            else:
                dims.append(('fix', d[2]))
        return SArr(a.buf, new, dims, tag=a.tag)
    f = a.snap()
    osh = a._shape

    def lin(idx):
        q = ZERO
        for x, n in zip(idx, new):
            q = q * n + x
        return q

    def g(idx):
        q = lin(idx)
        return f(unlin(q, osh))
    r = newarr(g, new, tag=a.tag)
    if all(not x.const() is None and x.const() < 2 for x in a._shape + r._shape):
        return r
    # numpy may give a view here: no write to either while both are alive
    share(r.buf, a.buf)
    return r


def share(p, q):
    for x, y in ((p, q), (q, p)):
        if x.shares is None:
            x.shares = []
        x.shares.append(weakref.ref(y))


def check_shares(buf):
    if buf.shares:
        buf.shares = [w for w in buf.shares if w() is not None]
        if buf.shares:
            raise Unsupported('write to an array with an array of another shape in the same memory')


def unlin(q, sh):
    out = []
    eff = [i for i, s in enumerate(sh) if s is not ONE]
    if len(eff) <= 1:
        return tuple(q if i in eff else ZERO for i in range(len(sh)))
    rem = q
    res = [ZERO] * len(sh)
    for i in reversed(eff[1:]):
        n = sh[i]
        c = rem.const()
        if c is not None and n.const() is not None:
            d, r = divmod(int(c), int(n.const()))
            res[i] = P(r)
            rem = P(d)
        else:
            # try exact decomposition rem = n*d + r with r an index below n
            dr = split_div(rem, n)
            if dr:
                rem, res[i] = dr
            else:
                d = fnapp('floor', rem * recip(n))
                res[i] = rem - n * d
                rem = d
    res[eff[0]] = rem
    return tuple(res)


def split_div(q, n):
    """q = n*d + r syntactically with 0<=r<n evident"""
    d = ZERO
    r = ZERO
    for m, c in q.t:
        t = poly({m: c})
        x = t * recip(n)
        if x.is_int():
            d = d + x
        else:
            r = r + t
    if LT0(r) is FALSE and LT(r, n) is TRUE:
        return d, r
    return None


def ravel(a, order='C'):
    if a.ndim == 1:
        return a
    return reshape(a, -1, order=order)


def flatten(a, order='C'):
    return copy(ravel(a, order))


def squeeze(a, axis=None):
    if axis is not None:
        ax = axis if isinstance(axis, tuple) else (axis,)
        ax = [x % a.ndim for x in ax]
        for x in ax:
            if not is_one(a._shape[x]) and not D(EQ(a._shape[x], ONE)):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        key = [0 if i in ax else slice(None) for i in range(a.ndim)]
    else:
        key = [0 if (is_one(s) or (s.const() is None and D(EQ(s, ONE)))) else slice(None) for s in a._shape]
    v = view(a, key)
    return v


def transpose(a, *axes):
    if not axes or axes == (None,):
        return a.T
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    axes = [int(x) for x in axes]
    inv = {o: i for i, o in enumerate(axes)}
    dims = tuple(('dim', inv[d[1]], d[2], d[3]) if d[0] == 'dim' else d for d in a.dims)
    return SArr(a.buf, [a._shape[x] for x in axes], dims)


# ------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (tuple, list)):
        return sorted(int(x) % nd for x in axis)
    ax = int(axis)
    if ax < -nd or ax >= nd:
        raise ValueError('axis %d is out of bounds for array of dimension %d' % (ax, nd))
    return [ax % nd]


def reduce_(a, axis, keepdims, fn):
    """fn(list of (var,size), body Poly) -> Poly"""
    a = asarr(a)
    axes = norm_axis(axis, a.ndim)
    f = a.nsnap()
    sh = a._shape
    oshape = [s for i, s in enumerate(sh) if i not in axes] if not keepdims else \
        [ONE if i in axes else s for i, s in enumerate(sh)]

    def g(idx):
        vs = [(uvar('r', 'I', 0, sh[i]), sh[i]) for i in axes]
        full = [None] * len(sh)
        for (v, n), i in zip(vs, axes):
            full[i] = P(v)
        if keepdims:
            for i in range(len(sh)):
                if i not in axes:
                    full[i] = idx[i]
        else:
            it = iter(idx)
            for i in range(len(sh)):
                if i not in axes:
                    full[i] = next(it)
        return fn(vs, f(tuple(full)))
    if not oshape:
        return wrapv(g(()))
    return newarr(g, oshape)


def _sumfn(vs, p):
    for v, n in vs:
        p = SUM(v, n, p)
    return p


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None):
    return reduce_(a, axis, keepdims, _sumfn)


def prod_(a, axis=None, dtype=None, out=None, keepdims=False):
    def f(vs, p):
        for v, n in vs:
            p = PROD(v, n, p)
        return p
    return reduce_(a, axis, keepdims, f)


def mean_(a, axis=None, dtype=None, out=None, keepdims=False):
    a = asarr(a)
    axes = norm_axis(axis, a.ndim)
    n = total([a._shape[i] for i in axes])
    return named_stat(reduce_(a, axis, keepdims, lambda vs, p: _sumfn(vs, p) * recip(n)))


def named_stat(x):
    """keep statistics as opaque names of their values (equal terms, equal
    names) when the scenario asks for it"""
    if CX.CUR.ghost.get('name_stats') and isinstance(x, SNum):
        import np_shim
        return SNum(np_shim.named(x.p))
    return x


def var_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = asarr(a)
    axes = norm_axis(axis, a.ndim)
    n = total([a._shape[i] for i in axes])
    m = mean_(a, axis, keepdims=True)
    dd = ew(lambda x: x * x, ew(lambda x, y: x - y, a, m))
    return reduce_(dd, axis, keepdims, lambda vs, p: _sumfn(vs, p) * recip(n - to_poly(ddof)))


def std_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return named_stat(ew(SQRT, var_(a, axis, ddof=ddof, keepdims=keepdims)))


def _argm(vs, p, sign):
    """indices of the first extremum"""
    sizes = tuple(n for v, n in vs)
    q = p if sign > 0 else -p
    eff = [(v, n) for v, n in vs if n is not ONE]
    sub = {v: ZERO for v, n in vs if n is ONE}
    q = subst(q, sub)
    res = []
    if not eff:
        return [ZERO] * len(vs)
    l = lam([v for v, n in eff], q)
    sz = tuple(n for v, n in eff)
    k = 0
    for v, n in vs:
        if n is ONE:
            res.append(ZERO)
        else:
            if v not in q.fv and len(eff) == 1:
                res.append(ZERO)
            else:
                res.append(AMIN(l, sz, k))
            k += 1
    return res


def _nonempty(a, axes):
    for i in axes:
        s = a._shape[i]
        if not D(LT(ZERO, s)):
            raise ValueError('zero-size array to reduction operation which has no identity')


def ext(a, axis, keepdims, sign):
    a = asarr(a)
    axes = norm_axis(axis, a.ndim)
    _nonempty(a, axes)

    def f(vs, p):
        ix = _argm(vs, p, sign)
        return subst(p, {v: i for (v, n), i in zip(vs, ix)})
    return reduce_(a, axis, keepdims, f)


def min_(a, axis=None, out=None, keepdims=False, initial=None):
    return ext(a, axis, keepdims, 1)


def max_(a, axis=None, out=None, keepdims=False, initial=None):
    return ext(a, axis, keepdims, -1)


def argext(a, axis, sign, keepdims=False):
    a = asarr(a)
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = norm_axis(axis, a.ndim)
    _nonempty(a, axes)

    def f(vs, p):
        ix = _argm(vs, p, sign)
        q = ZERO
        for (v, n), i in zip(vs, ix):
            q = q * n + i
        return q
    return reduce_(a, axis, keepdims, f)


def argmin(a, axis=None, out=None, keepdims=False):
    return argext(a, axis, 1, keepdims)


def argmax(a, axis=None, out=None, keepdims=False):
    return argext(a, axis, -1, keepdims)


def breduce(a, axis, keepdims, conj):
    a = asarr(a)
    axes = norm_axis(axis, a.ndim)
    f = a.snap()
    sh = a._shape
    if axis is not None and len(axes) < len(sh) or keepdims:
        o = [s for i, s in enumerate(sh) if i not in axes]
        if keepdims:
            raise Unsupported('all/any keepdims')
    else:
        o = []

    def g(idx):
        vs = []
        full = [None] * len(sh)
        for i in axes:
            v = uvar('r', 'I', 0, sh[i])
            vs.append((v, sh[i]))
            full[i] = P(v)
        it = iter(idx)
        for i in range(len(sh)):
            if i not in axes:
                full[i] = next(it)
        b = to_bool(f(tuple(full)))
        consts = [n.const() for v, n in vs]
        if all(c is not None and c <= 24 for c in consts):
            import itertools
            bs = []
            for combo in itertools.product(*[range(int(c)) for c in consts]):
                bs.append(subst(b, {v: P(q) for (v, n), q in zip(vs, combo)}))
            return AND(*bs) if conj else OR(*bs)
        rng = AND(*[AND(mkb('lt', (P(v) - n,)), NOT(mkb('lt', (P(v),)))) for v, n in vs])
        return FORALL([v for v, n in vs], IMPL(rng, b)) if conj else \
            NOT(FORALL([v for v, n in vs], IMPL(rng, NOT(b))))
    if not o:
        return SBool(g(()))
    return newarr(g, o, tag='bool')


def all_(a, axis=None, out=None, keepdims=False):
    return breduce(a, axis, keepdims, True)


def any_(a, axis=None, out=None, keepdims=False):
    return breduce(a, axis, keepdims, False)


# ---------------------------------------------------------------- products
def contract_dim(x, y):
    if x is y:
        return x
    if D(EQ(x, y)):
        return x
    raise ValueError('shapes not aligned: %s (dim) != %s (dim)' % (show(x), show(y)))


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(lambda x, y: x * y, a, b)
    fa, fb = a.nsnap(), b.nsnap()
    bax = b.ndim - 2 if b.ndim >= 2 else 0
    n = contract_dim(a._shape[-1], b._shape[bax])
    osh = list(a._shape[:-1]) + [s for i, s in enumerate(b._shape) if i != bax]
    na = a.ndim - 1

    def g(idx):
        v = uvar('k', 'I', 0, n)
        ib = list(idx[na:])
        ib.insert(bax, P(v))
        return SUM(v, n, fa(tuple(idx[:na]) + (P(v),)) * fb(tuple(ib)))
    if not osh:
        return wrapv(g(()))
    return newarr(g, osh)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('batched matmul')
    return dot(a, b)


def outer(a, b):
    a, b = ravel(asarr(a)), ravel(asarr(b))
    fa, fb = a.nsnap(), b.nsnap()
    return newarr(lambda i: fa((i[0],)) * fb((i[1],)), (a._shape[0], b._shape[0]))


def matlam(a):
    """square matrix as (lam, n, kind, transposed) recognising Cholesky factors"""
    if a.ndim != 2:
        raise LinAlgErr('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    n = contract_dim(a._shape[0], a._shape[1])
    i, j = uvar('i', 'I', 0, n), uvar('j', 'I', 0, n)
    e = a.at(P(i), P(j))
    return n, i, j, e


class LinAlgErr(Exception):
    pass


def symm_lam(n, i, j, e):
    et = subst(e, {i: P(j), j: P(i)})
    if et is e or is_zero(et - e):
        return lam([i, j], e)
    return None


def cholesky(a, upper=False):
    a = asarr(a)
    n, i, j, e = matlam(a)
    l = symm_lam(n, i, j, e)
    if l is None:
        et = subst(e, {i: P(j), j: P(i)})
        l = lam([i, j], ITE(LE(P(j), P(i)), e, et))
    return newarr(lambda idx: MAT('CH', l, n, idx[0], idx[1]), (n, n))


def inverse_of(a):
    """element function of the inverse of a"""
    n, i, j, e = matlam(a)
    at = e.atom()
    if at is not None and at.kind == 'mat' and at.data[2] is n:
        kind, l, nn, x, y = at.data
        I, J = P(i), P(j)
        if kind in ('CH', 'ICH') and {x, y} == {I, J}:
            k2 = 'ICH' if kind == 'CH' else 'CH'
            tr = x is J
            return n, (lambda p, q: MAT(k2, l, nn, q, p) if tr else MAT(k2, l, nn, p, q))
        if kind == 'INV':
            return n, (lambda p, q: inst(l, [p, q]))
    l = symm_lam(n, i, j, e)
    if l is not None:
        return n, (lambda p, q: MAT('INV', l, n, p, q))
    l = lam([i, j], e)
    return n, (lambda p, q: MAT('INVG', l, n, p, q))


def solve(a, b, **kw):
    a, b = asarr(a), asarr(b)
    n, inv = inverse_of(a)
    fb = b.nsnap()
    if b.ndim == 1:
        contract_dim(n, b._shape[0])

        def g(idx):
            v = uvar('k', 'I', 0, n)
            return SUM(v, n, inv(idx[0], P(v)) * fb((P(v),)))
        return newarr(g, (n,))
    contract_dim(n, b._shape[0])

    def g(idx):
        v = uvar('k', 'I', 0, n)
        return SUM(v, n, inv(idx[0], P(v)) * fb((P(v), idx[1])))
    return newarr(g, (n, b._shape[1]))


def inv_(a):
    a = asarr(a)
    n, inv = inverse_of(a)
    return newarr(lambda idx: inv(idx[0], idx[1]), (n, n))


def diag(a, k=0):
    a = asarr(a)
    if a.ndim == 1:
        f = a.nsnap()
        n = a._shape[0]
        return newarr(lambda idx: IV(EQ(idx[0], idx[1])) * f((idx[0],)), (n, n))
    n, m = a._shape
    if n is m or D(EQ(n, m)):
        s = n
    elif D(LT(n, m)):
        s = n
    else:
        s = m
    f = a.nsnap()
    return newarr(lambda idx: f((idx[0], idx[0])), (s,))


def trace(a):
    return sum_(diag(a))


def eye(n, m=None):
    n = to_poly(n)
    m = n if m is None else to_poly(m)
    return newarr(lambda idx: IV(EQ(idx[0], idx[1])), (n, m), tag='num')


def norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        if ord == 1 and asarr(a).ndim == 1 or (ord == 1 and axis is not None):
            return sum_(abs(asarr(a)), axis=axis, keepdims=keepdims)
        raise Unsupported('norm ord')
    return ew(SQRT, sum_(ew(lambda x: x * x, a), axis=axis, keepdims=keepdims))


def slogdet_chol(a):
    """log|det|: kept as an opaque function of the matrix"""
    n, i, j, e = matlam(asarr(a))
    return SNum(app('logdet', [lam([i, j], e), n]))


# ---------------------------------------------------------------- stacking
def concatenate(xs, axis=0):
    if isinstance(xs, SList):
        raise Unsupported('concatenate of symbolic list')
    xs = [asarr(x) for x in xs]
    if len(xs) == 1:
        return copy(xs[0])
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    for x in xs:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    sh = list(xs[0]._shape)
    for x in xs[1:]:
        for i in range(nd):
            if i != axis and x._shape[i] is not sh[i]:
                if not D(EQ(x._shape[i], sh[i])):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + x._shape[axis])
    sh[axis] = offs[-1]
    fs = [x.nsnap() for x in xs]

    def g(idx):
        i = idx[axis]
        r, last, one = None, -1, False
        for q in range(len(xs) - 1, -1, -1):
            c = LT(i, offs[q + 1])
            if q < len(xs) - 1 and c is FALSE:
                continue
            if q > 0 and LT(i, offs[q]) is TRUE:
                continue
            j = list(idx)
            j[axis] = i - offs[q]
            v = fs[q](tuple(j))
            if r is not None and one and last == q + 1 and not (v is r):
                # a single row that continues the formula of the rows before it
                j[axis] = xs[q]._shape[axis]
                if fs[q](tuple(j)) is r:
                    r, last, one = v, q, False
                    continue
            r, last, one = (v if r is None else ITE(c, v, r)), q, r is None and xs[q]._shape[axis] is ONE
        return r
    return newarr(g, sh)


def atleast_2d(a):
    a = asarr(a)
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return view(a, [None, slice(None)])
    return view(a, [None, None])


def atleast_1d(a):
    a = asarr(a)
    return a if a.ndim >= 1 else view(a, [None])


def vstack(xs):
    if isinstance(xs, SList):
        return from_slist_stack(xs)
    return concatenate([atleast_2d(x) for x in xs], 0)


def from_slist_stack(xs):
    a = from_slist(xs)
    if a.ndim == 2:
        return a
    raise Unsupported('vstack of a symbolic list of matrices')


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    out = []
    for x in xs:
        x = asarr(x)
        if x.ndim < 2:
            x = view(atleast_1d(x), [slice(None), None])
        out.append(x)
    return concatenate(out, 1)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    nd = xs[0].ndim + 1
    axis = axis % nd
    key = [slice(None)] * (nd - 1)
    key.insert(axis, None)
    return concatenate([view(x, key) for x in xs], axis)


def tile(a, reps):
    a = asarr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = [to_poly(r) for r in reps]
    nd = max(a.ndim, len(reps))
    reps = [ONE] * (nd - len(reps)) + reps
    sh = [ONE] * (nd - a.ndim) + list(a._shape)
    f = a.snap()
    off = nd - a.ndim
    out = [s * r for s, r in zip(sh, reps)]

    def g(idx):
        j = []
        for k in range(off, nd):
            i = idx[k]
            if reps[k] is ONE:
                j.append(i)
            elif sh[k] is ONE:
                j.append(ZERO)
            else:
                j.append(pmod_int(i, sh[k]))
        return f(tuple(j))
    return newarr(g, out)


def pmod_int(i, n):
    d = split_div(i, n)
    if d:
        return d[1]
    c, m = i.const(), n.const()
    if c is not None and m is not None:
        return P(int(c) % int(m))
    return i - n * fnapp('floor', i * recip(n))


def repeat(a, k, axis=None):
    a = asarr(a)
    k = to_poly(k)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis = axis % a.ndim
    f = a.snap()
    sh = list(a._shape)
    one = sh[axis] is ONE
    sh[axis] = sh[axis] * k

    def g(idx):
        j = list(idx)
        j[axis] = ZERO if one else (lambda dr: dr[0] if dr else fnapp('floor', idx[axis] * recip(k)))(
            split_div(idx[axis], k))
        return f(tuple(j))
    return newarr(g, sh)


def where(c, *xy):
    if not xy:
        c = asarr(c)
        return where1(c)
    return ew(lambda q, x, y: ITE(NOT(EQ0(q)) if not _is01(q) else _unIV(q), x, y), c, *xy)


def _is01(q):
    return _unIV(q) is not None


def _unIV(q):
    if q is ONE:
        return TRUE
    if q is ZERO:
        return FALSE
    a = q.atom()
    if a is not None and a.kind == 'iv':
        return a.data[0]
    return None


def _unIV2(q):
    r = _unIV(q)
    return NOT(EQ0(q)) if r is None else r


def where3(c, x, y):
    ca = asarr(c)
    arrs = [ca, asarr(x), asarr(y)]
    sh = bshape([a._shape for a in arrs])
    n = len(sh)
    fs = [bget(a.snap(), a._shape, n) for a in arrs]

    def g(idx):
        return ITE(to_bool(fs[0](idx)), _iv(fs[1](idx)), _iv(fs[2](idx)))
    if n == 0:
        return wrapv(g(()))
    return newarr(g, sh)


def pmax(a, b):
    if a is b:
        return a
    return ITE(LT(a, b), b, a)


def pmin(a, b):
    if a is b:
        return a
    return ITE(LT(b, a), b, a)


def clip(a, lo=None, hi=None, **kw):
    if lo is not None:
        a = ew(pmax, a, lo)
    if hi is not None:
        a = ew(pmin, a, hi)
    return a


def tolist(a):
    if a.ndim == 0:
        return wrapv(a.rawat(()))
    c = a._shape[0].const()
    if c is None:
        f = a.snap()
        if a.ndim == 1:
            return SList(a._shape[0], lambda i: wrapv(f((i,))))
        rest = a._shape[1:]
        return SList(a._shape[0], lambda i: tolist(newarr(lambda idx: f((i,) + idx), rest)))
    out = []
    for i in range(int(c)):
        x = getitem(a, i)
        out.append(tolist(x) if isinstance(x, SArr) else x)
    return out


def item(a, *k):
    if k:
        return getitem(ravel(a), k[0]) if len(k) == 1 else getitem(a, tuple(k))
    for s in a._shape:
        if not is_one(s) and not D(EQ(s, ONE)):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
    r = a.rawat([ZERO] * a.ndim)
    if CX.CUR.ghost.get('name_scalars') and isinstance(r, Poly) and len(r.t) > 4:
        import np_shim
        r = np_shim.named(r)
    return wrapv(r)


def fill(a, v):
    setitem(a, Ellipsis, v)


def einsum(spec, *ops):
    if '->' not in spec:
        raise Unsupported('einsum without output')
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum')
        for ch, n in zip(s, o._shape):
            size[ch] = contract_dim(size[ch], n) if ch in size else n
    fs = [o.nsnap() for o in ops]

    def g(idx):
        env = dict(zip(out, idx))
        vs = []
        for ch in size:
            if ch not in env:
                v = uvar('e', 'I', 0, size[ch])
                vs.append((v, size[ch]))
                env[ch] = P(v)
        p = ONE
        for s, f in zip(ins, fs):
            p = p * f(tuple(env[c] for c in s))
        return _sumfn(vs, p)
    if not out:
        return wrapv(g(()))
    return newarr(g, [size[c] for c in out])


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    f = a.nsnap()
    axis = axis % a.ndim

    def g(idx):
        v = uvar('k', 'I', 0, idx[axis] + ONE)
        j = list(idx)
        j[axis] = P(v)
        return SUM(v, idx[axis] + ONE, f(tuple(j)))
    return newarr(g, a._shape)


def astype(a, dtype=None, *k, **kw):
    return converted(copy(a), dtype)


def converted(a, dtype):
    """a (not shared) with its elements converted to dtype"""
    if dtype is None:
        return a
    c = dtype_cast(dtype)
    if c is None:
        if a.tag == 'bool':
            f = a.snap()
            return newarr(lambda idx: IV(to_bool(f(idx))), a._shape, tag='num')
        a.buf.cast = None
        return a
    if c is not trunc and _isbool_arr(a):
        return a
    f = a.snap()
    r = newarr(lambda idx: c(f(idx)), a._shape, tag='num')
    if c is not trunc:
        r = ewb_id(r)
    r.buf.cast = c if c is trunc else None
    return r


def ewb_id(a):
    f = a.snap()
    return newarr(lambda idx: to_bool(f(idx)), a._shape, tag='bool')


def swapaxes(a, i, j):
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, ax)


def _sort(a, *k, **kw):
    raise Unsupported('sort')


METHODS = {
    'reshape': reshape, 'ravel': ravel, 'flatten': flatten, 'copy': lambda a, order='C': copy(a), 'squeeze': squeeze,
    'transpose': transpose, 'sum': sum_, 'mean': mean_, 'std': std_, 'var': var_, 'min': min_,
    'max': max_, 'argmin': argmin, 'argmax': argmax, 'prod': prod_, 'dot': dot, 'tolist': tolist,
    'item': item, 'astype': astype, 'all': all_, 'any': any_, 'fill': fill, 'clip': clip,
    'repeat': repeat, 'diagonal': diag, 'trace': trace, 'cumsum': cumsum, 'swapaxes': swapaxes,
    'sort': _sort, 'argsort': _sort, 'ptp': lambda a, axis=None, out=None, keepdims=False: max_(a, axis=axis, keepdims=keepdims) - min_(a, axis=axis, keepdims=keepdims),
    'nonzero': lambda a: where1(a),
}
