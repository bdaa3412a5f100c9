"""The verifier: path exploration, obligations, and loops by induction.

A loop with a symbolic trip count is cut at its head: the locations its body
modifies are replaced by history functions h(k, ...) of the iteration number,
the body is run once from that arbitrary iteration, and what holds of the
result is established for k+1.  Closed forms (accumulators, row-by-row writes,
last values) are guessed from the body's effect and then *verified* by the same
induction; remaining locations keep their history function and whatever
candidate invariants survive (entry, preservation)."""
import hashlib
import sys
import time
from fractions import Fraction
import ctx as CX
import ir
from ir import *
import prover
from sym import *
import arr as A
import vc
import np_shim as N



def anyval(idx):
    """the value of a component that the type of the slot on this path does not have"""
    return ZERO


class PoisonRead(Unsupported):
    pass


class Poison:
    """value of a name that is unbound / not available"""

    def __init__(self, why, info=None):
        self.__dict__['why'] = why
        self.__dict__['info'] = info

    def _bad(self, *a, **k):
        e = PoisonRead('use of %s' % self.__dict__['why'])
        e.info = self.__dict__['info']
        raise e

    def __getattr__(self, k):
        if k in ('_vc_user', '_vc_heap') or k.startswith('__'):
            raise AttributeError(k)
        self._bad()


for _d in ('add radd sub rsub mul rmul truediv rtruediv pow rpow neg abs lt le gt ge eq ne call getitem setitem len '
           'iter bool contains matmul rmatmul mod rmod floordiv rfloordiv iadd isub imul index float int').split():
    setattr(Poison, '__%s__' % _d, Poison._bad)
Poison.__hash__ = object.__hash__


class Timeout(Unsupported):
    pass


class Ob:
    __slots__ = ('name', 'status', 'how', 'dec', 'detail')


class Verifier:
    def __init__(self, name='', max_paths=600, deadline=None, templates=(), timeout=4000, union=False, select=False, opaque=None, wopaque=None, keep=(), dtypes=False):
        self.dtypes = dtypes    # arrays given by the caller have any element type (whole numbers too)
        self.keep = keep        # ... unless they contain one of these functions
        self.wopaque = wopaque  # larger expressions are named when assigned to rows (arr.opaque_write)
        self.opaque = opaque    # arrays with larger expressions are arbitrary at the entry of a loop
        self.select = select    # closed forms of numbers may contain selected rows
        self.trace = None       # debugging: called with dropped candidates
        self.union = union      # state of varying type: no unrolling first
        self.name = name
        self.stack = []
        self.obs = []
        self.loops = {}
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.templates = list(templates)
        self.timeout = timeout
        self.divs = 0
        self.stats = {'paths': 0, 'loops': 0, 'restarts': 0}
        self._fe = {}
        self.loopnotes = {}

    # ------------------------------------------------- Ctx interface
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout('time budget exhausted')

    def feasible(self, hyps, b):
        key = (frozenset(hyps), b)
        r = self._fe.get(key)
        if r is None:
            self.tick()
            r = self._fe[key] = prover.unsat(list(hyps) + [b], 1500, rounds=2, quick=True) != 'unsat'
        return r

    def linear_unsat(self, hyps):
        return prover.linear_unsat([b for b in hyps if prover.linear(b)])

    def prove(self, hyps, b, timeout=None):
        self.tick()
        return prover.entails(list(hyps), b, timeout or self.timeout)[0]

    def note_div(self, a, b):
        self.divs += 1

    def push(self, prefix):
        self.stack.append(list(prefix))

    def defer(self, info, dec):
        """leave a loop only after all paths through its body were described"""
        p, n = info.prefix, len(info.prefix)
        wait = [i for i, s in enumerate(self.stack) if s[:n] == p]
        if any(tuple(self.stack[i]) not in info.deferred for i in wait):
            info.deferred.add(tuple(dec))
            self.stack.insert(wait[0], list(dec))
            raise CX.PathEnd('deferred')

    def purge(self, prefix, keep=None):
        n = len(prefix)
        p = list(prefix)
        self.stack = [s for s in self.stack if s[:n] != p]
        self.obs = [o for o in self.obs if o.dec[:n] != p]
        for info in self.loops.values():
            if info.prefix[:n] == p:
                info.live = False
                # (with the same decisions: what comes later on the path)
                info.stale = info.stale or info is not keep and (len(info.prefix) > n or keep is None or info.pos > keep.pos)

    def record(self, ctx, name, status, how, detail=None):
        o = Ob()
        o.name, o.status, o.how, o.detail = name, status, how, detail
        o.dec = list(ctx.dec)
        self.obs.append(o)

    # ---------------------------------------------------------- run
    def run(self, scenario):
        self.stack = [[]]
        while True:
            if not self.stack:
                # loops left only by break: their bodies still have to be checked
                rest = [i for i in self.loops.values() if i.live and i.stage == 'discover' and i.skipped]
                if not rest:
                    break
                info = min(rest, key=lambda i: len(i.prefix))
                info.stage, info.skipped = 'verify', False
                self.purge(info.prefix, info)
                self.push(info.prefix)
            self.tick()
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Timeout('path budget exhausted')
            c = CX.Ctx(self, prefix)
            CX.set_cur(c)
            try:
                scenario(V(self, c))
                # vacuity guard: the end of some path must be reachable
                if self.stats.get('covers', 0) < 3 and prover.unsat(list(c.hyps()), 1500, rounds=2) != 'unsat':
                    self.stats['covers'] = self.stats.get('covers', 0) + 1
            except CX.PathEnd:
                pass
            except Unsupported as e:
                if not isinstance(e, PoisonRead):
                    raise
                info = getattr(e, 'info', None)
                if info is None or info.peel >= 2:
                    raise
                info.peel += 1
                info.reset()
                self.purge(info.prefix, info)
                self.push(info.prefix)
                self.stats['restarts'] += 1
            except Exception as e:
                # an exception in a loop body whose state is not described yet
                # (arbitrary shapes): this path adds nothing to the description;
                # it is explored again when the description is complete
                lp = [l for l in c.bodies if l.info.stage == 'discover']
                if not lp:
                    if prover.unsat(list(c.hyps()), 3000, rounds=2) == 'unsat':
                        continue        # no execution takes this path
                    raise
                for l in lp:
                    l.info.suppressed = e
        for info in self.loops.values():
            if info.suppressed is not None and info.stage == 'discover' and info.live:
                raise info.suppressed
        return self.obs


# ------------------------------------------------------------- scenario API
def pooled(k, size):
    """index variable k of a goal, the same one every time"""
    a = mk('var', ('q%d#%d' % (k, size.id),), 'I')
    ir._sizes[a] = (ZERO, size)
    return a


class V:
    """what a scenario (contract) sees"""

    def __init__(self, ver, c):
        self.ver = ver
        self.c = c

    # --- symbolic inputs
    def dim(self, name, lo=1, hi=None):
        p = P(var(name, 'I'))
        self.c.assume(LE(P(lo), p))
        if hi is not None:
            self.c.assume(LE(p, P(hi)))
        return SNum(p)

    def int(self, name, lo=None, hi=None):
        p = P(var(name, 'I'))
        if lo is not None:
            self.c.assume(LE(P(lo), p))
        if hi is not None:
            self.c.assume(LE(p, P(hi)))
        return SNum(p)

    def real(self, name):
        return SNum(P(var(name, 'R')))

    def array(self, name, *shape):
        r = newarr(lambda idx: app(name, idx), [to_poly(s) for s in shape], tag='num')
        if self.ver.dtypes:
            r.buf.cast = A.arg_cast(name)
        return r

    def rows(self, arr, lo, hi):
        """fact: lo[j] <= arr[i,j] <= hi[j]"""

    def assume(self, b):
        self.c.assume(to_bool(b))

    def feasible(self):
        return self.ver.feasible(self.c.hyps(), TRUE)

    # --- obligations
    def skip(self):
        """in a loop body that is only being described (the path is explored
        again with its invariants before anything counts): no proofs"""
        lp = [l for l in self.c.bodies if l.info.stage == 'discover']
        for l in lp:
            l.info.skipped = True
        return bool(lp)

    def ensure(self, name, b, timeout=None):
        if self.skip():
            return True
        b = to_bool(b) if not isinstance(b, Bool) else b
        ok, how = prover.entails(self.c.hyps(), b, timeout or self.ver.timeout)
        self.ver.record(self.c, name, 'ok' if ok else 'fail', how,
                        None if ok else (b, list(self.c.hyps())))
        return ok

    def ensure_forall(self, name, sizes, fn, hyp=None, timeout=None):
        """for all index vectors within sizes: fn(*idx)"""
        if self.skip():
            return True
        for k, sz in enumerate(sizes):
            c = to_poly(sz).const()
            if c is not None and 2 <= c <= 4:
                # a small constant range: index by index
                rest = list(sizes[:k]) + list(sizes[k + 1:])
                return all([self.ensure_forall('%s [%d]' % (name, q), rest, lambda *i, q=q: fn(*(i[:k] + (SNum(P(q)),) + i[k:])),
                                               hyp, timeout) for q in range(int(c))])
        vs = [None if to_poly(s).const() == 1 else pooled(k, to_poly(s)) for k, s in enumerate(sizes)]
        rng = [AND(mkb('lt', (P(v) - to_poly(s),)), NOT(mkb('lt', (P(v),)))) for v, s in zip(vs, sizes) if v is not None]
        hy = self.c.hyps() + rng
        old = self.c.facts
        self.c.facts = old + rng
        try:
            b = fn(*[SNum(ZERO if v is None else P(v)) for v in vs])
            b = to_bool(b) if not isinstance(b, Bool) else b
            ok, how = prover.entails(self.c.hyps(), b, timeout or self.ver.timeout)
        finally:
            self.c.facts = old
        self.ver.record(self.c, name, 'ok' if ok else 'fail', how, None if ok else (b, hy))
        return ok

    def ensure_shape(self, name, a, shape):
        a = a if isinstance(a, SArr) else asarr(a)
        if len(a._shape) != len(shape):
            self.ver.record(self.c, name, 'fail', 'rank %d, expected %d' % (len(a._shape), len(shape)))
            return False
        return self.ensure(name, AND(*[EQ(x, to_poly(s)) for x, s in zip(a._shape, shape)]))

    def ensure_eq(self, name, a, b, shape=True):
        """a == b elementwise (same shape, unless scalars)"""
        if isinstance(a, SArr) or isinstance(b, SArr):
            a, b = asarr(a), asarr(b)
            if a.ndim != b.ndim:
                self.ver.record(self.c, name, 'fail', 'rank %d, expected %d' % (a.ndim, b.ndim))
                return False
            if not self.ensure(name + ':shape', AND(*[EQ(x, y) for x, y in zip(a._shape, b._shape)])):
                return False
            fa, fb = a.nsnap(), b.nsnap()
            return self.ensure_forall(name, b._shape, lambda *i: EQ(fa(tuple(x.p for x in i)), fb(tuple(x.p for x in i))))
        return self.ensure(name, EQ(to_poly(a), to_poly(b)))

    def sum_nonneg(self, name, n, fn):
        """lemma: a sum of terms that are each >= 0 is >= 0"""
        if self.ensure_forall(name, [n], lambda j: LE(ZERO, to_poly(fn(j)))):
            j = uvar('s', 'I', P(0), to_poly(n))
            self.c.fact(LE(ZERO, SUM(j, to_poly(n), to_poly(fn(SNum(P(j)))))))

    def fail(self, name, why):
        self.ver.record(self.c, name, 'fail', why)

    def ok(self, name, how='structural'):
        self.ver.record(self.c, name, 'ok', how)


# ------------------------------------------------------------------- heap
def is_inst(x):
    t = type(x)
    return (getattr(t, '_vc_user', False) or getattr(t, '_vc_heap', False)) and hasattr(x, '__dict__') \
        and not isinstance(x, type)


SKIP_ATTR = ('_vc_', )


class Heap:
    """units reachable from the roots, keyed by access path"""

    def __init__(self, names, flocals, frames, c):
        self.units = {}          # path -> (kind, obj, content)
        self.ids = {}
        self.refs = {}           # id(buf) -> [paths of slots]
        self.queue = []
        loc = {n: flocals[n] for n in flocals if not n.startswith('_vc')}
        self.units[('F',)] = ('slots', None, dict(loc))
        for k, v in loc.items():
            self.queue.append((('F', k), v))
        for i, fl in enumerate(frames):
            for k, v in fl.items():
                if not k.startswith('_vc'):
                    self.queue.append((('C%d' % i, k), v))
        for k, v in (c.heap_roots if isinstance(c.heap_roots, dict) else dict(enumerate(c.heap_roots))).items():
            self.queue.append((('H', k), v))
        if c.rng is not None:
            self.queue.append((('rng',), c.rng))
        q = 0
        while q < len(self.queue):
            p, x = self.queue[q]
            q += 1
            self.visit(p, x)
        self.queue = None

    def visit(self, p, x):
        if isinstance(x, SArr):
            b = x.buf
            self.refs.setdefault(id(b), []).append(p)
            if id(b) not in self.ids:
                self.ids[id(b)] = p
                self.units[p + ('$buf',)] = ('buf', b, b.f)
            return
        if isinstance(x, (SNum, SBool, int, str, Fraction, type(None), InfT, type)):
            return
        if id(x) in self.ids:
            return
        if isinstance(x, SList):
            self.ids[id(x)] = p
            self.units[p + ('$list',)] = ('list', x, (x.n, x.elem, tuple(x.tail)))
            for i, y in enumerate(x.tail):
                self.queue.append((p + (i,), y))
            return
        if isinstance(x, (tuple, list)):
            for i, y in enumerate(x):
                self.queue.append((p + (i,), y))
            return
        if isinstance(x, dict):
            self.ids[id(x)] = p
            self.units[p + ('$dict',)] = ('slots', x, dict(x))
            for k, y in x.items():
                self.queue.append((p + (k,), y))
            return
        if is_inst(x):
            self.ids[id(x)] = p
            self.units[p + ('$obj',)] = ('slots', x, dict(x.__dict__))
            for k, y in x.__dict__.items():
                self.queue.append((p + (k,), y))
            return
        f = getattr(x, '__func__', None)
        if f is not None:
            self.queue.append((p + ('$self',), x.__self__))


def elem_at(x, idx):
    if isinstance(x, (SArr, list)):
        return asarr(x).at(*[SNum(P(i)) for i in idx])
    return to_poly(x)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.buf is b.buf and a._shape == b._shape and a.dims == b.dims
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return to_bool(a) is to_bool(b)
    if isinstance(a, (SArr, SBool, list, dict)) or isinstance(b, (SArr, SBool, list, dict)):
        return False
    if isinstance(a, InfT) and isinstance(b, InfT):
        return a.sign == b.sign
    if isinstance(a, InfT) or isinstance(b, InfT):
        return False
    if (isnum(a) and isnum(b)):
        return to_poly(a) is to_poly(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return False


def bool_arr(x):
    f = x.snap()
    v = f(tuple(P(uvar('t')) for _ in x._shape))
    return isinstance(v, Bool)


def btop(v):
    return IV(v) if isinstance(v, Bool) else v


def bigger(x, n, distinct=False):
    """does the expression have more than n (distinct) atoms?"""
    st, k, seen = [x], 0, set()
    while st:
        y = st.pop()
        if distinct:
            if y in seen:
                continue
            seen.add(y)
        if isinstance(y, Poly):
            for m, c in y.t:
                st.extend(a for a, e in m)
        elif isinstance(y, (Atom, Bool)):
            k += 1
            if k > n:
                return True
            st.extend(z for z in y.data if isinstance(z, (Poly, Atom, Bool)))
    return False


def mentions(x, names):
    """does one of the functions occur in the expression (outside of sums and the like)?"""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            for m, c in y.t:
                st.extend(a for a, e in m)
        elif isinstance(y, (Atom, Bool)):
            if isinstance(y, Atom) and y.kind == 'app' and y.data[0] in names:
                return True
            for z in y.data:
                st.extend(z if isinstance(z, tuple) else [z])
    return False


class Loc:
    """a modified location: kind and scalar components"""

    def __init__(self, path, kind, v0):
        self.path = path
        self.kind = kind
        self.v0 = v0
        self.comps = {}
        self.isint = {}
        self.isbool = False
        self.changed = False
        self.dims = None
        self.big = None
        if kind == 'num':
            self.comps = {'v': 0}
            self.isint['v'] = to_poly(v0).is_int() if not isinstance(v0, SArr) else False
        elif kind == 'bool':
            self.comps = {'v': 0}
            self.isint['v'] = True
        elif kind in ('arr', 'buf'):
            nd = len(v0._shape) if kind == 'arr' else len(v0.shape)
            self.comps = {'v': nd}
            self.isint['v'] = False
        elif kind == 'list':
            self.comps = {'n': 0}
            self.isint['n'] = True
            self.proto = None
        elif kind == 'union':
            self.comps = {'t': 0}
            self.isint['t'] = True
            self.vars = []
            self.variant(v0)

    def variant(self, x):
        """number of the variant of x, added if new (None: not a union type)"""
        u = variant_of(x)
        if u is None:
            return None
        old = list(self.vars)
        j = variant_add(self.vars, u)
        if self.vars != old:
            self.addcomp(j)
            self.changed = True
        return j

    def addcomp(self, j):
        u = self.vars[j]
        lead = 1 if self.kind == 'list' else 0
        nm = ('e%d' if lead else 'w%d') % j
        if u[0] == 'num':
            self.comps[nm] = lead
            self.isint[nm] = False
        elif u[0] == 'arr':
            self.comps[nm] = lead + len(u[1])
            self.isint[nm] = False
            for a, s in enumerate(u[1]):
                if s is None:
                    self.comps['%ss%d' % (nm, a)] = lead
                    self.isint['%ss%d' % (nm, a)] = True


class Info:
    def __init__(self, key, prefix):
        self.key = key
        self.prefix = list(prefix)
        self.hash = hashlib.md5(repr(key).encode()).hexdigest()[:6]
        self.peel = 0
        self.kvars = {}
        self.dropped = set()
        self.entry_ok = None
        self.suppressed = None
        self.live = True
        self.stale = self.refresh = False
        self.pos = 0            # position of its head on the path
        self.native = True      # while loops: run as written as long as the condition is a constant
        self.reset()

    def reset(self):
        self.mod = {}
        self.banned = set()
        self.rediscover()

    def rediscover(self):
        self.stage = 'discover'
        self.skipped = False
        self.deps = {}
        self.deferred = set()
        self.suppressed = None
        self.closed = {}
        self.posts = []
        self.cands = None


def get_info(ver, ctx, lid):
    occ = ctx.loopocc.get(lid, 0)
    ctx.loopocc[lid] = occ + 1
    key = (lid, occ, tuple(ctx.dec))
    info = ver.loops.get(key)
    if info is None:
        info = ver.loops[key] = Info(key, ctx.dec)
        ver.stats['loops'] += 1
    if info.stale:
        # an enclosing loop was analysed again: the state at the entry may differ
        info.stale, info.refresh = False, True
        info.banned, info.dropped = set(), set()
        info.rediscover()
    info.live = True
    return info


def frame_locals(depth):
    f = sys._getframe(depth)
    cur = f
    outer = []
    g = f.f_back
    while g is not None:
        if g.f_code.co_filename.startswith('npvc:') and g.f_code.co_name != '<module>':
            outer.append(dict(g.f_locals))
        g = g.f_back
    return dict(cur.f_locals), outer


class NativeLoop:
    def __init__(self, it, names):
        self.it = iter(it)
        self.names = names

    def next(self):
        try:
            self.cur = next(self.it)
            self._loc(2)
            return True
        except StopIteration:
            self._loc(2)
            return False

    def _loc(self, d):
        f = sys._getframe(d + 0)
        self.loc = dict(f.f_locals)

    def vals(self):
        return tuple(self.loc[n] if n in self.loc else Poison('unbound name %s' % n) for n in self.names)

    def item(self):
        return self.cur


class SymLoop:
    """common part of symbolic for / while loops"""

    def setup(self, lid, names):
        self.lid = lid
        self.names = names
        self.ctx = CX.CUR
        self.ver = self.ctx.ver
        self.info = get_info(self.ver, self.ctx, lid)
        self.phase = 'peel'
        self.j = 0
        self.loc = {}

    def vals(self):
        return tuple(self.loc[n] if n in self.loc else Poison('unbound name %s' % n) for n in self.names)

    # ------------------------------------------------------------ restart
    def restart(self):
        self.ver.stats['restarts'] += 1
        if self.ver.stats['restarts'] > 400:
            raise Unsupported('loop analysis does not converge: %s' % self.lid)
        self.ver.purge(self.info.prefix, self.info)
        self.ver.push(self.info.prefix)
        self.info.posts = []
        raise CX.PathEnd('restart')

    # --------------------------------------------------------- head state
    def snapshot(self, flocals, outer):
        self.S0 = Heap(self.names, flocals, outer, self.ctx)
        self.act = list(self.ctx.active)
        self.ctx.heads = self.info.pos = self.ctx.heads + 1
        if self.info.refresh:
            self.info.refresh = False
            if not all(self.reenter(p, l) for p, l in self.info.mod.items()):
                self.info.mod = {}

    def reenter(self, path, loc):
        """the value of a modified location at the entry, again"""
        unit = self.S0.units.get(path[0])
        if unit is None:
            return False
        kind, obj, content = unit
        if loc.kind in ('buf', 'list'):
            if kind != loc.kind:
                return False
            if kind == 'list':
                return False
            if len(obj.shape) != len(loc.v0.shape):
                return False
            loc.v0, loc.f0, loc.big = obj, content, None
            return loc.isbool == isinstance(content(tuple(P(uvar('t')) for _ in obj.shape)), Bool)
        if kind != 'slots':
            return False
        a = content.get(path[1], _MISSING)
        if isinstance(a, Poison):
            a = _MISSING
        if loc.kind == 'temp':
            return a is _MISSING
        if a is _MISSING:
            return False
        if loc.kind == 'num':
            if not isnum(a):
                return False
            if loc.isint.get('v') and not to_poly(a).is_int():
                return False
        elif loc.kind == 'bool':
            if not isinstance(a, (bool, SBool)):
                return False
        elif loc.kind == 'arr':
            if not isinstance(a, SArr) or a.ndim != loc.v0.ndim or loc.isbool or bool_arr(a):
                return False
            if not all(same_size(x, y) for x, y in zip(a._shape, loc.v0._shape)):
                return False
            loc.f0, loc.big = a.nsnap(), None
        else:
            return False
        loc.v0 = a
        return True

    def hname(self, path, comp):
        return '$h%s:%s.%s' % (self.info.hash, '/'.join(str(x) for x in path), comp)

    def hist(self, loc, comp, kp):
        nm = self.hname(loc.path, comp)
        pre = [P(a) for a in self.act] + [kp]
        sort = 'I' if loc.isint.get(comp) else 'R'
        return lambda idx: app(nm, pre + list(idx), sort)

    def value_fn(self, loc, comp, kp, at_exit=False):
        cl = self.info.closed.get((loc.path, comp))
        if cl is not None:
            return lambda idx: cl(kp, tuple(idx), at_exit)
        return self.hist(loc, comp, kp)

    def build(self, loc, kp, at_exit=False):
        g = lambda c: self.value_fn(loc, c, kp, at_exit)
        k = loc.kind
        if k == 'num':
            return SNum(g('v')(()))
        if k == 'bool':
            return SBool(EQ(g('v')(()), ONE))
        if k == 'state':
            return SNum(g('v')(()))
        if k == 'union':
            t = g('t')(())
            self.ctx.fact(AND(LE(ZERO, t), LE(t, P(len(loc.vars) - 1))))
            for j, u in enumerate(loc.vars):
                if u[0] == 'arr':
                    self.ctx.fact(AND(*[LE(ZERO, g('w%ds%d' % (j, a))(())) for a, z in enumerate(u[1]) if z is None]))
            return Union(loc.vars, t, lambda j: g('w%ds%d' % j if isinstance(j, tuple) else 'w%d' % j)).resolve()
        if k == 'arr':
            shape = []
            for a, s in enumerate(loc.v0._shape):
                if 's%d' % a in loc.comps:
                    q = g('s%d' % a)(())
                    self.ctx.fact(LE(ZERO, q))
                    shape.append(q)
                else:
                    shape.append(s)
            f = g('v')
            if loc.isbool:
                return newarr(lambda idx: EQ(f(idx), ONE), shape)
            return newarr(f, shape, tag='num')
        if k == 'list':
            n = g('n')(())
            self.ctx.fact(LE(ZERO, n))
            if loc.proto is None:
                el = None
            elif loc.proto[0] == 'num':
                f = g('e')
                el = lambda i: SNum(f((P(i),)))
            elif loc.proto[0] == 'lst':
                fs = [g('e%d' % q) for q in range(loc.proto[1])]
                el = lambda i: SList(0, None, [SNum(f((P(i),))) for f in fs])
            elif loc.proto[0] == 'union':
                t, vars = g('et'), tuple(loc.vars)
                el = lambda i: Union(vars, t((P(i),)), lambda j: (
                    lambda idx, f=g('e%ds%d' % j if isinstance(j, tuple) else 'e%d' % j): f((P(i),) + tuple(idx))))
            elif loc.proto[0] == 'bool':
                f = g('e')
                el = lambda i: SBool(EQ(f((P(i),)), ONE))
            else:
                f = g('e')
                sh = loc.proto[1]
                el = lambda i: newarr(lambda idx: f((P(i),) + tuple(idx)), sh, tag='num')
            return n, el
        raise Unsupported('loop location of kind ' + k)

    def install(self, kp, at_exit=False):
        """set every modified location to its value at iteration kp"""
        self.head = {}
        self.npc = len(self.ctx.dec)
        for path, loc in self.info.mod.items():
            unit = self.S0.units[path[0]]
            if loc.kind == 'temp':
                if at_exit:
                    v = self.temp_exit(loc, kp)
                else:
                    v = Poison('loop temporary %s' % (path[1],), self.info)
            elif loc.kind == 'buf':
                f = self.value_fn(loc, 'v', kp, at_exit)
                ff = (lambda f: (lambda idx: EQ(f(idx), ONE)))(f) if loc.isbool else f
                unit[1].set(ff)
                self.head[path] = unit[1].f
                continue
            else:
                v = self.build(loc, kp, at_exit)
            if loc.kind == 'list':
                unit[1].become(v[0], v[1])
                self.head[path] = (unit[1].n, unit[1].elem, ())
                continue
            self.setslot(path, unit, v)
            self.head[path] = v

    def setslot(self, path, unit, v):
        if path[0] == ('F',):
            self.loc[path[1]] = v
        elif isinstance(unit[1], dict):
            unit[1][path[1]] = v
        elif isinstance(unit[1], SList):
            list.__setitem__(unit[1], path[1], v)
        else:
            unit[1].__dict__[path[1]] = v

    def getslot(self, path, unit):
        if path[0] == ('F',):
            return self.loc.get(path[1], _MISSING)
        if isinstance(unit[1], dict):
            return unit[1].get(path[1], _MISSING)
        if isinstance(unit[1], SList):
            return list.__getitem__(unit[1], path[1]) if path[1] < list.__len__(unit[1]) else _MISSING
        return unit[1].__dict__.get(path[1], _MISSING)

    # --------------------------------------------------------- candidates
    def state_view(self):
        out = {}
        for path, loc in self.info.mod.items():
            unit = self.S0.units[path[0]]
            if loc.kind == 'buf':
                out[path] = SArr(unit[1], unit[1].shape)
            elif loc.kind == 'list':
                out[path] = unit[1]
            elif loc.kind == 'temp':
                continue
            else:
                v = self.getslot(path, unit)
                if v is not _MISSING and not isinstance(v, Poison):
                    out[path] = v
        return out

    def candidates(self, kp, phase):
        r = {}
        st = self.state_view()
        for t in self.ver.templates:
            for n, b in t(st, kp, phase, self).items():
                r[n] = B(b) if isinstance(b, (Bool, bool)) else to_bool(b)
        return r

    def enter_cands(self, kp):
        """candidates that hold on entry (state still at entry)"""
        if not self.ver.templates:
            return
        info = self.info
        sig = frozenset(info.mod)
        if info.cands is None or info.cands[0] != sig:
            c = self.candidates(kp, 'entry')
            alive = set()
            h = self.ctx.hyps()
            for n, b in c.items():
                if n in info.dropped:
                    continue
                self.ver.tick()
                if prover.entails_in(4000, h, b, 1500)[0]:
                    alive.add(n)
                else:
                    info.dropped.add(n)
                    if self.ver.trace:
                        self.ver.trace(self, n, h, b, 'entry')
            info.cands = (sig, alive)

    def assume_cands(self, kp, phase):
        if not self.ver.templates:
            return
        c = self.candidates(kp, phase)
        for n in sorted(self.info.cands[1]):
            if n in c:
                self.ctx.fact(c[n])

    def check_cands(self, kp):
        if not self.ver.templates:
            return
        if self.info.stage == 'discover':
            self.info.skipped = True
            return
        c = self.candidates(kp, 'post')
        bad = []
        h = list(self.ctx.hyps())
        # in the order the template lists them: those proved so far (of the
        # state after the iteration) help with the next ones
        for n in [n for n in c if n in self.info.cands[1]]:
            self.ver.tick()
            if prover.entails_in(6000, h, c[n], 2500)[0]:
                h.append(c[n])
            else:
                bad.append(n)
                if self.ver.trace:
                    self.ver.trace(self, n, h, c.get(n), 'post')
        bad += [n for n in self.info.cands[1] if n not in c]
        if bad:
            self.info.cands[1].difference_update(bad)
            self.info.dropped.update(bad)
            self.restart()

    # ---------------------------------------------------------- back edge
    def begin_body(self, kp):
        self.kp = kp
        self.nfacts = len(self.ctx.facts)
        self.phase = 'body'
        ka = kp.atom()
        self.kvar = ka
        self.ctx.active.append(ka)
        self.ctx.bodies.append(self)
        self.head_units = {p: (u[1].f if u[0] == 'buf' else None) for p, u in self.S0.units.items()}
        self.head_gen = {p: u[1].gen for p, u in self.S0.units.items() if u[0] == 'buf'}
        self.head_slots = {}

    def back_edge(self):
        info, c = self.info, self.ctx
        c.active.pop()
        c.bodies.pop()
        newmods = []
        for p, u in self.S0.units.items():
            kind, obj, content = u
            if kind == 'buf':
                key = (p, '$')
                ref = self.head[key] if key in info.mod else content
                if obj.f is not ref and not self.buf_same(obj, ref):
                    if key not in info.mod:
                        newmods.append((key, 'buf', obj, content))
            elif kind == 'list':
                key = (p, '$')
                ref = self.head[key] if key in info.mod else content
                now = (obj.n, obj.elem, tuple(obj.tail))
                if key not in info.mod and ref[0] is ZERO and now[0] is ZERO and len(ref[2]) == len(now[2]):
                    # a list of fixed length: slot by slot
                    for s, (a, b) in enumerate(zip(ref[2], now[2])):
                        if (p, s) not in info.mod and not same(a, b):
                            newmods.append(((p, s), 'slot', a, b))
                    continue
                if not (now[0] is ref[0] and now[1] is ref[1] and len(now[2]) == len(ref[2]) and
                        all(same(a, b) for a, b in zip(now[2], ref[2]))):
                    if key not in info.mod:
                        for q in [q for q in info.mod if q[0] == p]:
                            del info.mod[q]
                        newmods.append((key, 'list', obj, content))
            else:
                now = self.loc if obj is None else (obj if isinstance(obj, dict) else obj.__dict__)
                nm = self.names if obj is None else list(dict.fromkeys(list(content) + list(now)))
                for s in nm:
                    key = (p, s)
                    if key in info.mod:
                        continue
                    a, b = content.get(s, _MISSING), now.get(s, _MISSING)
                    if isinstance(b, Poison):
                        b = _MISSING
                    if isinstance(a, Poison):
                        a = _MISSING
                    if a is _MISSING and b is _MISSING:
                        continue
                    if a is not _MISSING and b is not _MISSING and same(a, b):
                        continue
                    newmods.append((key, 'slot', a, b))
        if newmods:
            peel = False
            for key, kind, a, b in newmods:
                if kind == 'buf':
                    l = Loc(key, 'buf', a)
                    l.f0 = b
                    l.isbool = isinstance(b(tuple(P(uvar('t')) for _ in a.shape)), Bool)
                    info.mod[key] = l
                elif kind == 'list':
                    l = Loc(key, 'list', a)
                    self.list_loc(l, a, b)
                    info.mod[key] = l
                else:
                    l = self.slot_loc(key, a, b)
                    if l == 'peel':
                        peel = True
                    else:
                        info.mod[key] = l
            if peel:
                if info.peel >= 2:
                    raise Unsupported('loop state changes type in %s: %s' % (
                        self.lid, [(k, type(a).__name__, type(b).__name__) for k, kd, a, b in newmods if kd == 'slot']))
                info.peel += 1
                info.reset()
                self.restart()
            info.rediscover()
            self.restart()
        # post values
        post = {}
        refine = False
        for path, loc in list(info.mod.items()):
            unit = self.S0.units[path[0]]
            if loc.kind == 'temp':
                post[path] = self.getslot(path, unit)
                continue
            if loc.kind == 'buf':
                post[(path, 'v')] = lambda idx, f=unit[1].f: btop(f(tuple(idx)))
                continue
            if loc.kind == 'list':
                refine |= self.list_post(loc, unit[1], post)
                continue
            v = self.getslot(path, unit)
            if v is _MISSING:
                raise Unsupported('loop deletes a name')
            if loc.kind == 'num':
                if variant_of(v) is not None and not isnum(v) and not (isinstance(v, SArr) and not v.ndim):
                    info.mod[path] = self.union_loc(path, loc.v0, v)
                    refine = True
                    continue
                if isinstance(v, SArr):
                    if v.ndim:
                        raise Unsupported('loop variable %s changes shape' % (path,))
                    v = SNum(v.at())
                if not isnum(v) and not isinstance(v, SBool):
                    raise Unsupported('loop variable %s changes type to %s' % (path, type(v).__name__))
                q = to_poly(v)
                post[(path, 'v')] = lambda idx, q=q: q
                if loc.isint['v'] and not q.is_int():
                    loc.isint['v'] = False
                    refine = True
            elif loc.kind == 'state':
                q = to_poly(v)
                post[(path, 'v')] = lambda idx, q=q: q
            elif loc.kind == 'bool':
                if not isinstance(v, (SBool, bool)):
                    raise Unsupported('loop variable %s changes type' % (path,))
                q = IV(to_bool(v))
                post[(path, 'v')] = lambda idx, q=q: q
            elif loc.kind == 'union':
                loc.changed = False
                j = loc.variant(v)
                if j is None:
                    raise Unsupported('loop variable %s changes type to %s' % (path, type(v).__name__))
                refine |= loc.changed
                post[(path, 't')] = lambda idx, j=j: P(j)
                val = union_parts(loc.vars, v)[1]
                for nm in loc.comps:
                    if nm != 't':
                        i = union_comp(loc.vars, nm)
                        mine = j == (i[0] if isinstance(i, tuple) else i)
                        post[(path, nm)] = val(i) if mine else anyval
            elif loc.kind == 'arr':
                if not isinstance(v, SArr) or v.ndim != loc.v0.ndim:
                    if variant_of(v) is not None and not loc.isbool:
                        info.mod[path] = self.union_loc(path, loc.v0, v, loc)
                        refine = True
                        continue
                    raise Unsupported('loop variable %s changes type/rank' % (path,))
                for a, (s0, s1) in enumerate(zip(loc.v0._shape, v._shape)):
                    nm = 's%d' % a
                    if nm in loc.comps:
                        post[(path, nm)] = lambda idx, q=s1: q
                    elif not same_size(s0, s1):
                        loc.comps[nm] = 0
                        loc.isint[nm] = True
                        refine = True
                post[(path, 'v')] = v.nsnap()
                if loc.isbool and not bool_arr(v):
                    loc.isbool = False
                    refine = True
            else:
                raise Unsupported('loop kind ' + loc.kind)
        if refine:
            info.rediscover()
            self.restart()
        self.entry_alias()
        self.check_alias()
        # closed forms hold after the body?
        bad = set()
        for (path, comp), cl in list(info.closed.items()):
            loc = info.mod[path]
            if info.deps.get((path, comp), set()) & bad:
                continue
            if post[(path, comp)] is anyval:
                continue
            vs, rng = self.generic_idx(loc, comp, post)
            idx = tuple(P(v) for v in vs)
            q = post[(path, comp)](idx)
            want = cl(self.kp + ONE, idx, False)
            if not (q is want) and not self.same_element(q, want, vs, rng):
                bad.add((path, comp))
        if bad:
            info.banned |= bad
            info.rediscover()
            self.restart()
        self.check_cands(self.kp + ONE)
        pcs = [b for b in c.decb[self.npc:] if b is not None]
        info.posts.append((pcs, post, c.facts[self.nfacts:]))
        raise CX.PathEnd('back edge')

    def same_element(self, q, want, vs, rng):
        """q = want, by cases on the row written in this iteration when that is
        one of the index variables"""
        h = self.ctx.hyps() + list(rng)
        ka = self.kvar
        for v in vs:
            for ofs, sg in self.row_candidates(q, v, ka):
                row = self.kp.scale(sg) + ofs
                if v in row.fv:
                    continue
                g, w = subst(q, {v: row}), subst(want, {v: row})
                if not (g is w or is_zero(g - w)):
                    continue
                if prover.entails_in(8000, h + [NOT(EQ(P(v), row))], EQ(q, want), 3000)[0]:
                    return True
        return prover.entails_in(8000, h, EQ(q, want), 3000)[0]

    def buf_same(self, obj, ref):
        vs = tuple(P(uvar('t')) for _ in obj.shape)
        a, b = obj.f(vs), ref(vs)
        return a is b

    def written(self):
        """arrays written in place by the body: buffers of the entry heap, and
        slots whose array was installed at the head"""
        inplace = set(id(u[1]) for p, u in self.S0.units.items() if u[0] == 'buf' and u[1].gen != self.head_gen.get(p))
        wr = set(path for path, v in self.head.items() if isinstance(v, SArr) and v.buf.gen > 0)
        return inplace, wr

    def entry_alias(self):
        """an array that is shared at the entry between several names, one of
        which gets a new array at the head, must not be written in place by the
        body (the head state would not show the write under the other names):
        the first iteration is then run separately"""
        inplace, wr = self.written()
        if not wr and not inplace:
            return
        info = self.info
        for b, ps in self.S0.refs.items():
            if len(ps) < 2:
                continue
            keys = [(('F',), p[1]) if p[0] == 'F' and len(p) == 2 else q for p in ps for q in (
                (p[:-1] + ('$obj',), p[-1]), (p[:-1] + ('$dict',), p[-1]), (p[:-1] + ('$list',), p[-1]), (p[:-1] + ('$list',), '$'))]
            new = [q for q in keys if q in info.mod and info.mod[q].kind != 'temp']
            if new and (b in inplace or any(q in wr for q in new)):
                if info.peel >= 2:
                    raise Unsupported('aliasing at the entry of a loop: %s' % (ps,))
                info.peel += 1
                info.reset()
                self.restart()

    def check_alias(self):
        """an array that the body writes in place must not be shared between
        two modified slots after the body (havoc would have separated them)"""
        inplace, wr = self.written()
        if not wr and not inplace:
            return
        refs = {}
        for path, loc in self.info.mod.items():
            if loc.kind in ('arr', 'union'):
                v = self.getslot(path, self.S0.units[path[0]])
                if isinstance(v, SArr):
                    refs.setdefault(id(v.buf), []).append(path)
        for i, ps in refs.items():
            if (len(ps) > 1 and any(p in wr for p in ps)) or i in inplace:
                raise Unsupported('aliasing of arrays written in place across iterations: %s' % (ps,))
            if any(p in wr for p in ps):
                for p, u in self.S0.units.items():
                    if u[0] == 'buf' and id(u[1]) == i:
                        raise Unsupported('aliasing with an outer array: %s' % (ps,))

    # ------------------------------------------------------ locations
    def slot_loc(self, key, a, b):
        if b is _MISSING:
            raise Unsupported('loop deletes a name')
        if a is _MISSING:
            return Loc(key, 'temp', None)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return Loc(key, 'bool', a)
        if self.ver.union and variant_of(a) is not None and variant_of(b) is not None and not (isnum(a) and isnum(b)) \
                and not (isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim) and not (isinstance(b, SArr) and b.ndim == 0):
            return self.union_loc(key, a, b)
        if isinstance(a, InfT) or isinstance(b, InfT):
            return 'peel'
        if isnum(a) and isnum(b) or (isnum(a) and isinstance(b, SArr) and b.ndim == 0):
            l = Loc(key, 'num', a)
            if key[1] == 'state' and isinstance(self.S0.units[key[0]][1], N.RNG):
                l.isint['v'] = True
            return l
        if isinstance(a, SArr) and isinstance(b, SArr):
            if a.ndim == b.ndim:
                l = Loc(key, 'arr', a)
                l.f0 = a.nsnap()
                l.isbool = bool_arr(a) and bool_arr(b)
                return l
            return 'peel'
        if a is None or isinstance(a, str) or type(a) is not type(b):
            return 'peel' if self.info.peel < 2 else Loc(key, 'temp', None)
        return Loc(key, 'temp', None)

    def union_loc(self, key, a, b, was=None):
        l = Loc(key, 'union', a)
        if was is not None and was.kind == 'arr':
            l.vars[0] = ('arr', tuple(None if 's%d' % i in was.comps else z for i, z in enumerate(l.vars[0][1])))
            l.addcomp(0)
        l.variant(b)
        return l

    def list_loc(self, l, lst, content):
        n0, el0, tail0 = content
        l.n0 = n0 + P(len(tail0))
        s = SList(n0, el0, tail0)
        l.get0 = s.get
        # prototype element from the entry contents or from the appended ones
        samples = list(tail0) + list(lst.tail)
        if el0 is not None:
            samples.insert(0, el0(P(uvar('t', 'I', 0, n0))))
        l.tail0 = (n0, el0, tuple(tail0))
        pr = None
        for x in samples:
            if isinstance(x, Union):
                return self.list_union(l, samples)
            if isinstance(x, SArr):
                q = ('arr', tuple(x._shape))
            elif isnum(x):
                q = ('num',)
            elif isinstance(x, (bool, SBool)):
                q = ('bool',)
            elif isinstance(x, SList) and x.concrete() and all(isnum(y) for y in x.tail):
                q = ('lst', len(x.tail))
            elif variant_of(x) is not None:
                return self.list_union(l, samples)
            else:
                raise Unsupported('list of %s modified in a loop' % type(x).__name__)
            if pr is None:
                pr = q
            elif pr != q:
                if pr[0] == 'arr' and q[0] == 'arr' and len(pr[1]) == len(q[1]) and \
                        all(same_size(u, v) for u, v in zip(pr[1], q[1])):
                    continue
                return self.list_union(l, samples)
        l.proto = pr
        if pr is not None and pr[0] == 'lst':
            for q in range(pr[1]):
                l.comps['e%d' % q] = 1
                l.isint['e%d' % q] = False
        elif pr is not None:
            l.comps['e'] = 1 + (len(pr[1]) if pr[0] == 'arr' else 0)
            l.isint['e'] = False

    def list_union(self, l, samples):
        l.proto = ('union',)
        l.vars = []
        l.comps = {'n': 0, 'et': 1}
        l.isint = {'n': True, 'et': True}
        for x in samples:
            for u in (x.vars if isinstance(x, Union) else [variant_of(x)]):
                if u is None:
                    raise Unsupported('list of %s modified in a loop' % type(x).__name__)
                l.addcomp(variant_add(l.vars, u))

    def list_parts(self, vars, n, elem, tail, i):
        """(tag, val) of the element i of a list, as a union"""
        if elem is None or n is ZERO:
            t, v = ZERO, lambda j: (lambda idx: ZERO)
        else:
            t, v = union_parts(vars, elem(i))
        for q, x in enumerate(tail):
            c = EQ(i, n + P(q))
            tx, vx = union_parts(vars, x)
            t = ITE(c, tx, t)
            v = (lambda v, vx, c: lambda j: (lambda idx: ITE(c, vx(j)(idx), v(j)(idx))))(v, vx, c)
        return t, v

    def list_post(self, loc, lst, post):
        post[(loc.path, 'n')] = lambda idx, q=lst.length(): q
        frozen = SList(lst.n, lst.elem, lst.tail)
        if loc.proto is None:
            raise Unsupported('list without element type')
        if loc.proto[0] == 'union':
            loc.changed = False
            for x in lst.tail:
                if not isinstance(x, Union) and loc.variant(x) is None:
                    raise Unsupported('list of %s modified in a loop' % type(x).__name__)
            args = (tuple(loc.vars), lst.n, lst.elem, tuple(lst.tail))
            post[(loc.path, 'et')] = lambda idx: self.list_parts(*args, idx[0])[0]
            for nm in loc.comps:
                if nm not in ('n', 'et'):
                    j = union_comp(loc.vars, nm)
                    post[(loc.path, nm)] = lambda idx, j=j: self.list_parts(*args, idx[0])[1](j)(tuple(idx[1:]))
            return loc.changed
        bad = [x for x in lst.tail if loc.proto[0] in ('arr', 'num') and (
            (loc.proto[0] == 'num' and not isnum(x)) or (loc.proto[0] == 'arr' and not (
                isinstance(x, SArr) and variant_fit(('arr', loc.proto[1]), variant_of(x)) == ('arr', loc.proto[1]))))]
        if bad and all(variant_of(x) is not None for x in lst.tail):
            self.list_union(loc, [Union((('num',) if loc.proto[0] == 'num' else ('arr', loc.proto[1]),), None, None)] + list(lst.tail))
            return True

        def e(idx, *q):
            if frozen.concrete() and not frozen.tail:
                return ZERO
            return elem_at(frozen.get(idx[0]), tuple(P(x) for x in q) + tuple(idx[1:]))
        for x in lst.tail:
            if loc.proto[0] == 'arr':
                if not isinstance(x, SArr) or x.ndim != len(loc.proto[1]) or not all(
                        u is v or self.ctx.prove(EQ(u, v)) for u, v in zip(x._shape, loc.proto[1])):
                    raise Unsupported('heterogeneous list')
            elif loc.proto[0] == 'lst':
                if not (isinstance(x, SList) and x.concrete() and len(x.tail) == loc.proto[1]):
                    raise Unsupported('heterogeneous list')
            elif isinstance(x, (SArr, list)):
                raise Unsupported('heterogeneous list')
        if loc.proto[0] == 'lst':
            for q in range(loc.proto[1]):
                post[(loc.path, 'e%d' % q)] = lambda idx, q=q: e(idx, q)
        else:
            post[(loc.path, 'e')] = e
        return False

    def generic_idx(self, loc, comp, post=None):
        """generic index variables of a component, with range facts"""
        nd = loc.comps[comp]
        if nd == 0:
            return [], []
        if loc.kind == 'buf':
            sizes = [P(s) for s in loc.v0.shape]
        elif loc.kind == 'union':
            sizes = list(loc.vars[int(comp[1:])][1])
        elif loc.kind == 'arr':
            sizes = []
            for a, s in enumerate(loc.v0._shape):
                if 's%d' % a in loc.comps:
                    sizes.append(post[(loc.path, 's%d' % a)](()) if post is not None else None)
                else:
                    sizes.append(s)
        else:
            sizes = [post[(loc.path, 'n')](()) if post is not None else None]
            if loc.proto[0] == 'arr':
                sizes += list(loc.proto[1])
            elif loc.proto[0] == 'union' and comp != 'et' and 's' not in comp and loc.vars[int(comp[1:])][0] == 'arr':
                sizes += list(loc.vars[int(comp[1:])][1])
        vs, rng = [], []
        for s in sizes:
            if s is None:
                vs.append(uvar('g', 'I'))
                rng.append(NOT(LT0(P(vs[-1]))))
            else:
                v = uvar('g', 'I', 0, s)
                vs.append(v)
                rng.append(AND(mkb('lt', (P(v) - s,)), NOT(mkb('lt', (P(v),)))))
        return vs, rng

    # -------------------------------------------------------- closed forms
    def v0fn(self, loc, comp):
        if loc.kind in ('num', 'bool', 'state'):
            q = to_poly(loc.v0)
            return lambda idx: q
        if loc.kind == 'list':
            if comp == 'n':
                q = loc.n0
                return lambda idx: q
            if loc.proto[0] == 'union':
                args = (tuple(loc.vars),) + loc.tail0
                if comp == 'et':
                    return lambda idx: self.list_parts(*args, idx[0])[0]
                return lambda idx: self.list_parts(*args, idx[0])[1](union_comp(loc.vars, comp))(tuple(idx[1:]))
            g = loc.get0
            q = (P(int(comp[1:])),) if comp != 'e' else ()

            def f(idx):
                if loc.n0 is ZERO:
                    return ZERO
                return elem_at(g(idx[0]), q + tuple(idx[1:]))
            return f
        if loc.kind == 'union':
            t, val = union_parts(loc.vars, loc.v0)
            if comp == 't':
                return lambda idx: t
            return val(union_comp(loc.vars, comp))
        if comp.startswith('s'):
            q = loc.v0._shape[int(comp[1:])]
            return lambda idx: q
        if self.ver.opaque and comp == 'v' and not loc.isbool:
            if loc.big is None:
                vs = [P(uvar('g', 'I')) for _ in range(loc.comps[comp])]
                loc.big = bigger(btop(loc.f0(tuple(vs))), self.ver.opaque)
            if loc.big:
                # sound: the content at the entry is some array (its symbol has no other meaning)
                nm = '$e' + self.hname(loc.path, comp)[2:]
                return lambda idx: app(nm, [P(a) for a in self.act] + list(idx))
        return lambda idx: btop(loc.f0(tuple(idx)))

    def guess(self):
        """closed forms from the recorded posts; returns dict"""
        info = self.info
        if not info.posts:
            return {}
        kv = self.posts_kvar()
        k0 = P(info.peel)
        todo = []
        for path, loc in info.mod.items():
            if loc.kind == 'temp':
                continue
            for comp in loc.comps:
                if (path, comp) in info.banned:
                    continue
                todo.append((path, comp))
        mine = {self.hname(p, c): (p, c) for p, l in info.mod.items() if l.kind != 'temp' for c in l.comps}
        closed = {}
        progress = True
        nact = len(self.act)

        def mp_closed():
            m = {}
            for (p, c), cl in closed.items():
                m[self.hname(p, c)] = (lambda cl: lambda args: cl(args[nact], tuple(args[nact + 1:]), False))(cl)
            return m
        while progress and todo:
            progress = False
            for pc in list(todo):
                path, comp = pc
                loc = info.mod[path]
                vs = [uvar('g', 'I') for _ in range(loc.comps[comp])]
                # sizes: keep range knowledge when the shape is fixed
                if loc.comps[comp] and not any(c.startswith('s') for c in loc.comps) and loc.kind != 'list':
                    vs, _ = self.generic_idx(loc, comp, None)
                idx = tuple(P(v) for v in vs)
                q = self.merged(path, comp, idx)
                if q is None:
                    continue
                q0 = q
                q = rewrite(q, mp_closed())
                self_nm = self.hname(path, comp)
                S = app(self_nm, [P(a) for a in self.act] + [P(kv)] + list(idx), 'I' if loc.isint.get(comp) else 'R')
                others = (hnames(q) & set(mine)) - {self_nm}
                deps = set(mine[n] for n in hnames(q0) & set(mine)) - {pc}
                if others:
                    continue
                cl = self.shape_closed(loc, comp, vs, q, S, self_nm, kv, k0, self.post_range(loc, comp, vs, mp_closed()))
                if cl is not None:
                    closed[pc] = cl
                    info.deps[pc] = deps.union(*[info.deps.get(x, ()) for x in deps])
                    todo.remove(pc)
                    progress = True
        return closed

    def post_range(self, loc, comp, vs, mp):
        """the index ranges of a component after the body"""
        out = [NOT(LT0(P(v))) for v in vs]
        if loc.kind == 'arr':
            for a, v in enumerate(vs):
                n = self.merged(loc.path, 's%d' % a, ()) if 's%d' % a in loc.comps else loc.v0._shape[a]
                if n is not None:
                    out.append(LT(P(v), rewrite(n, mp)))
        elif loc.kind == 'list' and vs:
            n = self.merged(loc.path, 'n', ())
            if n is not None:
                out.append(LT(P(vs[0]), rewrite(n, mp)))
        return out

    def posts_kvar(self):
        return self.info.kvar

    def merged(self, path, comp, idx):
        r = None
        com = None
        for pcs, post, _ in self.info.posts:
            com = set(pcs) if com is None else com & set(pcs)
        for pcs, post, _ in self.info.posts:
            pcs = [b for b in pcs if b not in com]       # (always true after the body)
            f = post.get((path, comp))
            if f is None:
                return None
            if f is anyval:
                continue
            q = f(idx)
            r = q if r is None else ITE(AND(*pcs), q, r)
        return r

    def shape_closed(self, loc, comp, vs, q, S, nm, kv, k0, rng=()):
        v0 = self.v0fn(loc, comp)
        kp = P(kv)
        d = q - S
        isnm = lambda x: nm in hnames(x)
        if not isnm(d):
            # accumulator
            if d is ZERO:
                return lambda k, idx, ex: v0(idx)
            c = d.const()
            if c is not None and kv not in d.fv and not (d.fv & set(vs)):
                return lambda k, idx, ex: v0(idx) + (k - k0) * d

            def acc(k, idx, ex):
                t = uvar('it', 'I', 0, k - k0)
                dd = subst(d, {kv: P(t) + k0, **dict(zip(vs, idx))})
                return v0(idx) + SUM(t, k - k0, dd)
            return acc
        if not isnm(q):
            if '!en' in hnames(q) and not (self.ver.select and not vs):
                return None         # a selection of rows: left to the invariants
            return self.lastform(loc, comp, vs, q, kv, k0, v0)
        if not vs:
            return None
        # row / element map: exists axis a and affine w with: idx_a == row(k) gets g, others keep S
        for a, v in enumerate(vs):
            for ofs, sg in self.row_candidates(q, v, kv):
                # written index: v == sg*k + ofs   <=> k == sg*(v - ofs)
                row = kp.scale(sg) + ofs
                g = subst(q, {v: row})

                def fix(args, nact=len(self.act)):
                    ii = args[nact + 1:]
                    # own occurrence at the row being written: still v0
                    if args[nact] is kp and (ii[a] is row or EQ(ii[a], row) is TRUE):
                        return v0(tuple(ii))
                    return None
                g2 = rewrite(g, {nm: fix})
                if isnm(g2) or '!en' in hnames(g2):
                    continue
                rest = ITE(EQ(P(v), row), g, S)
                if not is_zero(q - rest) and not prover.entails(
                        self.ctx.hyps() + list(rng), EQ(q, rest), 2000)[0]:
                    continue

                def rowmap(k, idx, ex, a=a, ofs=ofs, sg=sg, g2=g2, vs=vs):
                    w = (idx[a] - ofs).scale(sg)       # the iteration that writes idx
                    mp = {kv: w}
                    mp.update({u: x for u, x in zip(vs, idx) if u is not vs[a]})
                    gg = subst(g2, mp)
                    return ITE(AND(LE(k0, w), LT(w, k)), gg, v0(idx))
                return rowmap
        return None

    def lastform(self, loc, comp, vs, q, kv, k0, v0):
        """the value is assigned anew in every iteration: q(k) after iteration k"""
        e = subst(q, {kv: k0 - ONE})
        i0 = tuple(P(v) for v in vs)
        w = v0(i0)
        uniform = e is w or is_zero(e - w)
        if loc.kind == 'union' and v0 is not None and not isinstance(loc.v0, Union) and comp != 't':
            j = union_comp(loc.vars, comp)
            uniform |= union_index(loc.vars, loc.v0) not in (j, j[0] if isinstance(j, tuple) else j)
        if not uniform:
            rng = [NOT(LT0(P(v))) for v in vs]
            rng += [AND(LE(lo, P(v)), LT(P(v), hi)) for v in vs for lo, hi in [ir._sizes.get(v, (ZERO, None))] if hi is not None]
            uniform = prover.entails(self.ctx.hyps() + rng, EQ(e, w), 700)[0]

        def lastv(k, idx, ex):
            prev = subst(q, {kv: k - ONE, **dict(zip(vs, idx))})
            if ex and isinstance(self, ForSym) or uniform:
                return prev
            return ITE(EQ(k, k0), v0(idx), prev)
        return lastv

    def row_candidates(self, q, v, kv):
        out = []
        seen = set()

        def scan(b):
            if b.kind in ('and', 'or', 'not'):
                for x in b.data:
                    scan(x)
            elif b.kind in ('eq', 'lt', 'le'):
                p = b.data[0]
                cv = ck = None
                rest = ZERO
                for m, c in p.t:
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] is v:
                        cv = c
                    elif len(m) == 1 and m[0][1] == 1 and m[0][0] is kv:
                        ck = c
                    else:
                        rest = rest + poly({m: c})
                if cv is not None and ck is not None and abs(ck / cv) == 1 and not (rest.fv & {v, kv}):
                    sg = -ck / cv
                    ofs = rest.scale(Fraction(-1) / cv)
                    for o in (ofs,) if b.kind == 'eq' else (ofs, ofs - ONE, ofs + ONE):
                        key = (int(sg), o)
                        if key not in seen and (b.kind == 'eq' or sg == 1):
                            seen.add(key)
                            out.append((o, int(sg)))
        st = [q]
        done = set()
        while st:
            x = st.pop()
            for iv in top_ivs(x):
                if iv in done:
                    continue
                done.add(iv)
                scan(iv.data[0])
            if isinstance(x, Poly):
                for m, c in x.t:
                    for at, e in m:
                        if at.kind == 'iv' and at not in done:
                            done.add(at)
                            scan(at.data[0])
        if (ZERO, 1) not in [(o, s) for o, s in out]:
            out.append((ZERO, 1))
        return out

    def temp_exit(self, loc, kp):
        """value of a loop temporary after the last iteration"""
        info = self.info
        kv = info.kvar
        try:
            vals = []
            for pcs, post, _ in info.posts:
                v = post[loc.path]
                if v is _MISSING:
                    return Poison('loop temporary')
                mp = {kv: kp - ONE}
                rw = self.closed_map()
                vals.append((subst(AND(*pcs), mp), subst_rw(v, mp, rw)))
            if not vals:
                return Poison('loop temporary')
            return merge_values(vals[1:], vals[0][1])
        except Unsupported as e:
            return Poison('loop temporary %s (%s)' % (loc.path[1], e))

    def closed_map(self):
        return {}

    def export_facts(self, hi):
        """facts established in the body hold for every iteration"""
        info = self.info
        kv = info.kvar
        out = []
        for pcs, post, facts in info.posts:
            cond = AND(*pcs)
            for f in facts:
                if kv not in f.fv:
                    continue
                rng = [LE(P(info.peel), P(kv))]
                if hi is not None:
                    rng.append(LT(P(kv), hi))
                out.append(FORALL([kv], IMPL(AND(*(rng + [cond])), f)))
        for f in out:
            self.ctx.fact(f)


def subst_rw(v, mp, rw):
    return vc.subst_value(v, mp)


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()


class ForSym(SymLoop):
    def __init__(self, lid, it, names):
        self.setup(lid, names)
        self.it = it
        self.n = it.n

    def next(self):
        f = sys._getframe(1)
        c, info = self.ctx, self.info
        self.loc = {k: v for k, v in f.f_locals.items()}
        if self.phase == 'body':
            self.back_edge()
        if self.phase == 'peel' and self.j < info.peel:
            if not c.decide(LT(P(self.j), self.n)):
                self.phase = 'done'
                return False
            self.curk = P(self.j)
            self.j += 1
            return True
        if self.phase != 'peel':
            raise Unsupported('loop protocol')
        if not c.decide(LT(P(info.peel), self.n)):
            self.phase = 'done'
            return False
        fl, outer = frame_locals(2)
        self.snapshot(fl, outer)
        kv = info.kvars.get(self.n)
        if kv is None:
            kv = info.kvars[self.n] = mk('var', ('k%s#%d' % (info.hash, len(info.kvars)),), 'I')
            ir._sizes[kv] = (P(info.peel), self.n)
        ir._sizes[kv] = (P(info.peel), self.n)
        info.kvar = kv
        self.enter_cands(P(info.peel))
        if c.choose('loop'):
            self.install(P(kv))
            c.fact(AND(mkb('le', (P(info.peel) - P(kv),)) if info.peel else NOT(mkb('lt', (P(kv),))),
                       mkb('lt', (P(kv) - self.n,))))
            self.assume_cands(P(kv), 'head')
            self.begin_body(P(kv))
            self.curk = P(kv)
            return True
        # exit
        if info.stage == 'discover':
            cl = self.guess()
            info.stage = 'verify'
            again, info.suppressed, info.skipped = info.suppressed is not None or info.skipped, None, False
            if cl:
                info.closed = cl
                self.ver.loopnotes[info.key] = sorted('%s.%s' % (p, q) for p, q in cl)
            if cl or again:
                self.restart()
        if not info.posts:
            raise CX.PathEnd('loop never completes an iteration')
        self.install(self.n, at_exit=True)
        self.export_facts(self.n)
        self.assume_cands(self.n, 'exit')
        self.phase = 'done'
        return False

    def item(self):
        return self.it.item(self.curk)


class WhileLoop(SymLoop):
    """runs natively while the condition is concrete; inductive otherwise"""

    def __init__(self, lid, names):
        self.lid0, self.names0 = lid, names
        self.sym = None
        self.count = 0
        self.setup(lid, names)
        self.ndec = 0

    def next(self):
        f = sys._getframe(1)
        self.loc = dict(f.f_locals)
        if self.info.native:
            self.ndec = len(self.ctx.dec)
            return True
        if self.phase == 'body':
            self.back_edge()
        info = self.info
        if self.phase == 'peel' and self.j < info.peel:
            self.j += 1
            return True
        if self.phase != 'peel':
            raise Unsupported('loop protocol')
        fl, outer = frame_locals(2)
        self.snapshot(fl, outer)
        kv = info.kvars.get(0)
        if kv is None:
            kv = info.kvars[0] = mk('var', ('k%s#' % info.hash,), 'I')
        info.kvar = kv
        self.enter_cands(P(info.peel))
        self.install(P(kv))
        self.ctx.fact(LE(P(info.peel), P(kv)))
        self.assume_cands(P(kv), 'head')
        self.begin_body(P(kv))
        return True

    def test(self, cond):
        if self.info.native:
            self.count += 1
            c = cond.b if isinstance(cond, SBool) else cond
            if (c is not TRUE and c is not FALSE and not isinstance(c, (bool, int, list, tuple))) or len(self.ctx.dec) != self.ndec \
                    or self.count > 24:
                self.info.native = False
                self.restart()
            return bool(cond)
        if isinstance(cond, SArr):
            return bool(cond)
        return bool(cond)

    def leave(self):
        if self.phase != 'body':
            return
        info = self.info
        if info.stage == 'discover':
            self.ver.defer(info, self.ctx.dec)
            cl = self.guess()
            info.stage = 'verify'
            again, info.suppressed, info.skipped = info.suppressed is not None or info.skipped, None, False
            if cl:
                info.closed = cl
                self.ver.loopnotes[info.key] = sorted('%s.%s' % (p, q) for p, q in cl)
            if cl or again:
                self.restart()
        self.ctx.active.pop()
        self.ctx.bodies.pop()
        self.phase = 'done'
        self.export_facts(self.kp)


class NativeWhile:
    pass


def forloop(lid, it, names):
    x = vc.as_iter(it)
    if isinstance(x, vc.SRange):
        return ForSym(lid, x, names)
    return NativeLoop(x, names)


def whileloop(lid, names):
    return WhileLoop(lid, names)
