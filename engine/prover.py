"""Discharging obligations: normal form first, then z3 (ground instances of the
quantified hypotheses are generated here; z3 sees quantifier-free formulas),
cvc5 as a second solver when z3 answers unknown."""
import time
from fractions import Fraction
import z3
import ir
from ir import *

STATS = {'z3': 0, 'z3_time': 0.0, 'nf': 0, 'queries': 0, 'cvc5': 0, 'cache': 0}
AXIOMS = {}          # app symbol -> fn(args)->[Bool]   (facts about every element)
TIMEOUT = 4000


def plain(s):
    """a name that SMT-LIB can quote (cvc5 reads the problem as text)"""
    return s.replace('\\', '^').replace('|', '!')


class Tr:
    """translation to z3 with per-occurrence axioms"""

    def __init__(self):
        self.cache = {}
        self.axq = []          # pending axioms (Bool)
        self.axz = []          # z3 axioms
        self.seen = set()
        self.uf = {}
        self.ground_apps = {}  # (name) -> set of arg tuples
        self.idx = set()

    def func(self, name, sorts, ret):
        k = (name, tuple(str(s) for s in sorts), str(ret))
        f = self.uf.get(k)
        if f is None:
            f = self.uf[k] = z3.Function('%s/%d' % (plain(name), len(self.uf)), *sorts, ret)
        return f

    def poly(self, p):
        z = self.cache.get(p)
        if z is not None:
            return z
        c = p.const()
        if c is not None:
            z = z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
        else:
            ivs = top_ivs(p)
            if ivs:
                a = ivs[0]
                z1 = self.poly(set_iv(p, a, 1))
                z0 = self.poly(set_iv(p, a, 0))
                if z1.sort() != z0.sort():
                    z1, z0 = self.real(z1), self.real(z0)
                z = z3.If(self.bool(a.data[0]), z1, z0)
            else:
                isint = p.is_int()
                terms = []
                for m, c in p.t:
                    fs = []
                    for a, e in m:
                        za = self.atom(a)
                        if not isint:
                            za = self.real(za)
                        if e < 0:
                            base = self.real(za) if a.kind != 'grp' else za
                            za = self.recip(base)
                            e = -e
                        for _ in range(e):
                            fs.append(za)
                    if isint:
                        co = z3.IntVal(int(c))
                    else:
                        co = z3.RealVal(str(c))
                    if not fs:
                        terms.append(co)
                    else:
                        t = fs[0]
                        for f in fs[1:]:
                            t = t * f
                        terms.append(t if c == 1 else co * t)
                z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.cache[p] = z
        return z

    def recip(self, base):
        f = self.func('recip', [z3.RealSort()], z3.RealSort())
        r = f(base)
        k = ('recip', r.get_id())
        if k not in self.seen:
            self.seen.add(k)
            self.axz.append(z3.Implies(base != 0, r * base == 1))
            self.axz.append(z3.Implies(base > 0, r > 0))
            self.axz.append(z3.Implies(base < 0, r < 0))
            self._keep = getattr(self, '_keep', [])
            self._keep.append(r)
        return r

    @staticmethod
    def real(z):
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def rpoly(self, p):
        return self.real(self.poly(p))

    def ax(self, key, bs):
        if key in self.seen:
            return
        self.seen.add(key)
        self.axq.extend(bs)

    def atom(self, a):
        z = self.cache.get(a)
        if z is not None:
            return z
        k = a.kind
        if k in ('var', 'bv'):
            z = z3.Int(self.nm(a)) if a.sort == 'I' else z3.Real(self.nm(a))
            self.cache[a] = z
            if a in ir._sizes:
                lo, hi = ir._sizes[a]
                self.ax(('rng', a), [NOT(mkb('lt', (P(a) - lo,))), mkb('lt', (P(a) - hi,))])
            if a in POSVARS:
                self.axz.append(z >= 1)
            if a is PI:
                self.axz.append(z > z3.RealVal('3.14159265358979'))
                self.axz.append(z < z3.RealVal('3.1415926535898'))
            if a in VAR_AX:
                self.ax(('var', a), VAR_AX[a])
            return z
        if k == 'grp':
            z = self.rpoly(a.data[0])
        elif k == 'iv':
            z = z3.If(self.bool(a.data[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'fn' and all(isinstance(x, Poly) for x in a.data[1:]):
            z = self.fn(a)
        else:
            args = []
            s = skeleton(a, args)
            zs = [self.poly(x) for x in args]
            ret = z3.IntSort() if a.sort == 'I' else z3.RealSort()
            f = self.func(s, [x.sort() for x in zs], ret)
            z = f(*zs) if zs else z3.Const('%s/c%d' % (plain(s[:60]), self.const_id(s)), ret)
            self.cache[a] = z
            if k == 'app':
                h = AXIOMS.get(a.data[0])
                if h:
                    self.ax(('app', a), h(a.data[1:], a))
            if k == 'amin':
                self.ax(('amin', a), amin_axioms(a))
            if k == 'en':
                self.ax(('en', a), en_axioms(a))
        self.cache[a] = z
        return z

    def const_id(self, s):
        d = self.__dict__.setdefault('_cid', {})
        return d.setdefault(s, len(d))

    def nm(self, a):
        return '%s~%d' % (str(a.data), a.id)

    def fn(self, a):
        n = a.data[0]
        if n == 'abs':
            x = self.rpoly(a.data[1])
            return z3.If(x >= 0, x, -x)
        if n == 'floor':
            return z3.ToInt(self.rpoly(a.data[1]))
        zs = [self.rpoly(x) for x in a.data[1:]]
        f = self.func(n, [z3.RealSort()] * len(zs), z3.RealSort())
        z = f(*zs)
        key = ('fn', a)
        if key not in self.seen:
            self.seen.add(key)
            x = zs[0] if zs else None
            A = self.axz
            if n == 'exp':
                A += [z > 0, z3.Implies(x <= 0, z <= 1), z3.Implies(x >= 0, z >= 1)]
            elif n == 'sqrt':
                A += [z >= 0, z3.Implies(x >= 0, z * z == x), z3.Implies(x > 0, z > 0)]
            elif n in ('sin', 'cos'):
                A += [z >= -1, z <= 1]
            elif n == 'Phi':
                A += [z >= 0, z <= 1]
            elif n == 'phi':
                A += [z > 0, z <= z3.RealVal('0.4')]
            elif n == 'pow':
                A += [z3.Implies(x > 0, z > 0), z3.Implies(x == 0, z >= 0)]
            elif n == 'log':
                c = a.data[1].const()
                if c is not None and c > 1:
                    A += [z > 0]
        return z

    def bool(self, b):
        z = self.cache.get(b)
        if z is not None:
            return z
        k = b.kind
        if k == 'true':
            z = z3.BoolVal(True)
        elif k == 'false':
            z = z3.BoolVal(False)
        elif k == 'lt':
            z = self.poly(b.data[0]) < 0
        elif k == 'le':
            z = self.poly(b.data[0]) <= 0
        elif k == 'eq':
            z = self.poly(b.data[0]) == 0
        elif k == 'not':
            z = z3.Not(self.bool(b.data[0]))
        elif k == 'and':
            z = z3.And(*[self.bool(x) for x in b.data])
        elif k == 'or':
            z = z3.Or(*[self.bool(x) for x in b.data])
        elif k == 'bapp':
            args = []
            s = skeleton(b, args)
            zs = [self.poly(x) for x in args]
            f = self.func(s, [x.sort() for x in zs], z3.BoolSort())
            z = f(*zs) if zs else z3.Bool('%s/b%d' % (plain(s[:60]), self.const_id(s)))
        elif k == 'forall':
            # nested quantifier: kept opaque unless it is handled by the
            # instantiation layer (sound: an uninterpreted proposition)
            z = z3.Bool('forall~%d' % b.id)
            self.__dict__.setdefault('opaque', {})[b] = z
        else:
            raise Unsupported('z3 bool ' + k)
        self.cache[b] = z
        return z


VAR_AX = {}


def skeleton(x, args, env=()):
    """structural key of x with maximal free index terms abstracted as holes;
    bound variables are named by the nesting depth of their binder"""
    if isinstance(x, Poly):
        if x.const() is not None:
            return str(x.const())
        if x.is_int() and not any(v.kind == 'bv' for v in x.fv) and x.fv \
                and not any(a.kind == 'iv' for m, c in x.t for a, e in m):
            args.append(x)
            return '[]'
        parts = []
        for m, c in x.t:
            ms = []
            for a, e in m:
                sub = []
                ms.append((skeleton(a, sub, env) + '^%d' % e, sub))
            ms.sort(key=lambda q: (q[0], [z.id for z in q[1]]))
            parts.append((str(c) + '*' + '*'.join(q[0] for q in ms), [z for q in ms for z in q[1]]))
        parts.sort(key=lambda q: (q[0], [z.id for z in q[1]]))
        for s, a in parts:
            args.extend(a)
        return '(' + '+'.join(s for s, a in parts) + ')'
    if isinstance(x, Atom):
        if x.kind == 'var':
            return 'v%d' % x.id
        if x.kind == 'bv':
            for d in range(len(env) - 1, -1, -1):
                if env[d] == x.data[0]:
                    return '_%d.%d' % (d, x.data[1])
            return '_f%d.%d' % x.data
        if x.kind == 'sum':
            nb, h, sizes, mono = x.data
            return 'S%d<%s>' % (nb, ','.join(skeleton(s, args, env) for s in sizes)) + \
                skeleton(poly({mono: Fraction(1)}), args, env + (h,))
        return x.kind + '{' + ','.join(skeleton(z, args, env) if isinstance(z, (Poly, Lam, Bool, Atom))
                                       else ('<' + ','.join(skeleton(w, args, env) for w in z) + '>')
                                       if isinstance(z, tuple) else str(z)
                                       for z in x.data) + '}'
    if isinstance(x, Lam):
        return '\\%d.' % len(x.bvs) + skeleton(x.body, args, env + (x.bvs[0].data[0] if x.bvs else None,))
    if isinstance(x, Bool):
        if x.kind in ('and', 'or'):
            parts = []
            for y in x.data:
                sub = []
                parts.append((skeleton(y, sub, env), sub))
            parts.sort(key=lambda q: (q[0], [z.id for z in q[1]]))
            for s, a in parts:
                args.extend(a)
            return x.kind + '(' + ';'.join(s for s, a in parts) + ')'
        return x.kind + '(' + ','.join(skeleton(z, args, env) if isinstance(z, (Poly, Lam, Bool, Atom))
                                       else str(z) for z in x.data) + ')'
    return str(x)


def amin_axioms(a):
    l, sizes, which = a.data
    idx = [P(mk('amin', (l, sizes, w), 'I')) if sizes[w] is not ONE else ZERO
           for w in range(len(sizes))]
    out = []
    nonempty = [LT(ZERO, s) for s in sizes]
    for ix, s in zip(idx, sizes):
        out.append(IMPL(AND(*nonempty), AND(LE(ZERO, ix), LT(ix, s))))
    vs = [uvar('m', 'I', 0, s) for s in sizes]
    best = inst(l, idx)
    cur = inst(l, [P(v) for v in vs])
    rng = AND(*[AND(mkb('lt', (P(v) - s,)), NOT(mkb('lt', (P(v),)))) for v, s in zip(vs, sizes)])
    out.append(FORALL(vs, IMPL(rng, LE(best, cur))))
    if len(sizes) == 1:
        v = vs[0]
        out.append(FORALL([v], IMPL(AND(NOT(mkb('lt', (P(v),))), LT(P(v), idx[0])), LT(best, cur))))
    return out


def en_axioms(a):
    kind, l, n = a.data[:3]
    card = ENUM('CARD', l, n)
    out = []
    if kind == 'CARD':
        v = uvar('m', 'I', 0, n)
        out.append(LE(ZERO, card))
        out.append(LE(card, n))
        # card>0 -> witness ; mask(i) -> card>0
        w = ENUM('EN', l, n, ZERO)
        out.append(IMPL(LT(ZERO, card), AND(LE(ZERO, w), LT(w, n), NOT(EQ0(inst(l, [w]))))))
        rk = ENUM('RK', l, n, P(v))
        out.append(FORALL([v], IMPL(AND(NOT(mkb('lt', (P(v),))), mkb('lt', (P(v) - n,)), NOT(EQ0(inst(l, [P(v)])))),
                                    AND(LE(ZERO, rk), LT(rk, card)))))
    elif kind == 'EN':
        q = a.data[3]
        me = P(a)
        msk = NOT(EQ0(inst(l, [me])))
        out.append(IMPL(AND(LE(ZERO, q), LT(q, n)),
                        AND(LE(ZERO, me), LT(me, n),
                            OR(NOT(msk), LT(q, card)), OR(msk, LE(card, q)))))
    elif kind == 'RK':
        i = a.data[3]
        me = P(a)
        msk = NOT(EQ0(inst(l, [i])))
        out.append(IMPL(AND(LE(ZERO, i), LT(i, n)),
                        AND(LE(ZERO, me), LT(me, n),
                            OR(NOT(msk), LT(me, card)), OR(msk, LE(card, me)))))
    return out


# ------------------------------------------------------------ instantiation
def collect_apps(x, out, seen, idx):
    """ground application arguments by symbol: out[name] = set of arg tuples"""
    if x in seen:
        return
    seen.add(x)
    if isinstance(x, Poly):
        for m, c in x.t:
            for a, e in m:
                collect_apps(a, out, seen, idx)
    elif isinstance(x, Atom):
        if x.kind in ('app', 'en', 'amin', 'mat'):
            nm = x.data[0] if x.kind == 'app' else ('@' + str(x.data[0]) if x.kind in ('en', 'mat') else '@amin')
            args = tuple(z for z in x.data[1:] if isinstance(z, Poly)) if x.kind != 'en' else x.data[3:]
            if x.kind == 'app':
                out.setdefault(nm, set()).add(x.data[1:])
            elif x.kind == 'en':
                out.setdefault((nm, x.data[1]), set()).add(args)
            if x.kind == 'amin' and not has_bv(x):
                idx.add(P(x))
            if x.kind == 'en' and not has_bv(x) and x.data[0] != 'CARD':
                idx.add(P(x))
            for z in args:
                if isinstance(z, Poly) and z.is_int() and not has_bv(z):
                    idx.add(z)
        for z in x.data:
            if isinstance(z, (Poly, Lam, Bool, Atom)):
                collect_apps(z, out, seen, idx)
            elif isinstance(z, tuple):
                for w in z:
                    if isinstance(w, (Poly, Lam, Bool, Atom)):
                        collect_apps(w, out, seen, idx)
        if x.kind == 'sum':
            collect_apps(poly({x.data[3]: Fraction(1)}), out, seen, idx)
    elif isinstance(x, Lam):
        collect_apps(x.body, out, seen, idx)
    elif isinstance(x, Bool):
        for z in x.data:
            if isinstance(z, (Poly, Lam, Bool, Atom)):
                collect_apps(z, out, seen, idx)


def has_bv(x):
    return any(v.kind == 'bv' for v in x.fv)


def pattern_positions(l):
    """for each bound var of lam l: list of (symbol key, argpos, offset poly, sign)"""
    pos = {b: [] for b in l.bvs}
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                for a, e in m:
                    walk(a)
        elif isinstance(x, Atom):
            if x.kind in ('app', 'en'):
                key = x.data[0] if x.kind == 'app' else ('@' + x.data[0], x.data[1])
                args = x.data[1:] if x.kind == 'app' else x.data[3:]
                for i, z in enumerate(args):
                    if isinstance(z, Poly):
                        for b in l.bvs:
                            if b in z.fv:
                                # linear?
                                cf = None
                                ok = True
                                for m, c in z.t:
                                    for y, e in m:
                                        if b in y.fv:
                                            if y is b and len(m) == 1 and e == 1:
                                                cf = c
                                            else:
                                                ok = False
                                if ok and cf in (1, -1):
                                    off = z - P(b).scale(cf)
                                    if not has_bv(off):
                                        pos[b].append((key, i, off, cf))
            for z in x.data:
                if isinstance(z, (Poly, Lam, Bool, Atom)):
                    walk(z)
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, (Poly, Lam, Bool, Atom)):
                            walk(w)
            if x.kind == 'sum':
                walk(poly({x.data[3]: Fraction(1)}))
        elif isinstance(x, Lam):
            walk(x.body)
        elif isinstance(x, Bool):
            for z in x.data:
                if isinstance(z, (Poly, Lam, Bool, Atom)):
                    walk(z)
    walk(l.body)
    return pos


def boundaries(l):
    """terms at which a literal of the body changes: candidates for the bound variables"""
    out = {b: set() for b in l.bvs}
    st, seen = [l.body], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind in ('and', 'or', 'not'):
            st.extend(x.data)
        elif x.kind in ('lt', 'eq'):
            p = x.data[0]
            for b in l.bvs:
                if b in p.fv:
                    cf = None
                    for m, c in p.t:
                        if len(m) == 1 and m[0][0] is b and m[0][1] == 1:
                            cf = c
                    if cf in (1, -1):
                        z = (p - P(b).scale(cf)).scale(-cf)
                        if not has_bv(z) and z.const() is None and z.is_int():
                            out[b].add(z)
    return out


_ppc = {}
_bnd = {}


def flatten(b, ground, univ, skolem=True):
    """split hypothesis b into ground formulas and universal facts"""
    if b is TRUE:
        return
    if b.kind == 'and':
        for x in b.data:
            flatten(x, ground, univ)
        return
    if b.kind == 'forall':
        univ.append(b.data[0])
        return
    if b.kind == 'not' and b.data[0].kind == 'forall':
        l = b.data[0].data[0]
        vs = [uvar('sk') for _ in l.bvs]
        flatten(NOT(inst(l, [P(v) for v in vs])), ground, univ)
        return
    if b.kind == 'or' and any(_hasq(x) for x in b.data):
        # guard -> forall : push guard under the quantifier
        qs = [x for x in b.data if x.kind == 'forall']
        rest = [x for x in b.data if x.kind != 'forall']
        if qs and not any(_hasq(x) for x in rest):
            if len(qs) == 1:
                l = qs[0].data[0]
                vs = [uvar('q') for _ in l.bvs]
                univ.append(lam(vs, OR(*(rest + [inst(l, [P(v) for v in vs])]))))
                return
        ands = [x for x in b.data if x.kind == 'and' and _hasq(x)]
        if len(ands) == 1 and not any(_hasq(x) for x in b.data if x is not ands[0]):
            rest = [x for x in b.data if x is not ands[0]]
            for y in ands[0].data:
                flatten(OR(*(rest + [y])), ground, univ)
            return
        nq = [x for x in b.data if x.kind == 'not' and x.data[0].kind == 'forall']
        if nq:
            new = []
            for x in b.data:
                if x in nq:
                    l = x.data[0].data[0]
                    vs = [uvar('sk') for _ in l.bvs]
                    new.append(NOT(inst(l, [P(v) for v in vs])))
                else:
                    new.append(x)
            flatten(OR(*new), ground, univ)
            return
    ground.append(b)


def _hasq(b):
    if b.kind == 'forall':
        return True
    return any(_hasq(x) for x in b.data if isinstance(x, Bool)) if b.kind in ('and', 'or', 'not') else False


MAXINST = 3000
_entc = {}


def linear(b):
    """only comparisons of linear terms in variables"""
    if b.kind in ('and', 'or', 'not'):
        return all(linear(x) for x in b.data)
    if b.kind in ('lt', 'le', 'eq'):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var') for m, c in b.data[0].t)
    return b.kind in ('true', 'false')


_lin = {}


def linear_unsat(bs):
    key = frozenset(bs)
    r = _lin.get(key)
    if r is None:
        tr = Tr()
        s = z3.Solver()
        s.set('timeout', 300)
        for b in bs:
            s.add(tr.bool(b))
        r = _lin[key] = s.check() == z3.unsat
    return r


def unsat(bs, timeout=None, rounds=3, want_model=False, quick=False):
    """are the Bools bs jointly unsatisfiable?  -> 'unsat' | 'sat' | 'unknown'.
    'sat' only means: no contradiction among the generated instances."""
    STATS['queries'] += 1
    if _dl is not None and time.time() > _dl:
        return ('unknown', None) if want_model else 'unknown'
    ground, univ = [], []
    for b in bs:
        flatten(b, ground, univ)
    if FALSE in ground:
        return 'unsat'
    if quick and not want_model:
        lin = [b for b in ground if linear(b)]
        if 1 < len(lin) < len(ground) + len(univ) and linear_unsat(lin):
            return 'unsat'
    tr = Tr()
    s = z3.Solver()
    full = timeout or TIMEOUT

    def check():
        t = full if not quick else max(100, full - int(1000 * (time.time() - t0)))
        if _dl is not None:
            t = max(50, min(t, int(1000 * (_dl - time.time()))))
        s.set('timeout', t)
        return s.check()
    done = set()
    asserted = 0
    apps, seen, idx = {}, set(), set()
    total = 0
    pend = list(ground)
    t0 = time.time()
    res = None
    for rnd in range(rounds + 1):
        # translate everything pending, with axioms
        while pend or tr.axq:
            while pend:
                b = pend.pop()
                if ('as', b) in done:
                    continue
                done.add(('as', b))
                collect_apps(b, apps, seen, idx)
                s.add(tr.bool(b))
            if tr.axq:
                q, tr.axq = tr.axq, []
                for b in q:
                    g2, u2 = [], []
                    flatten(b, g2, u2)
                    pend.extend(g2)
                    univ.extend(u2)
        if tr.axz:
            s.add(*tr.axz)
            tr.axz = []
        if quick and univ and rnd == 0:
            # without the quantified facts first
            s.set('timeout', max(100, full // 3))
            if s.check() == z3.unsat:
                res = 'unsat'
                break
        if rnd >= 1 or not univ:
            r = check()
            if r == z3.unsat:
                res = 'unsat'
                break
            if not univ:
                res = str(r)
                break
        if rnd == rounds:
            res = str(check())
            break
        # instantiate
        new = 0
        for l in univ:
            collect_apps(l.body, apps, seen, idx)
        # free integer index variables appearing in ground formulas
        for l in list(univ):
            pp = _ppc.get(l)
            if pp is None:
                pp = _ppc[l] = pattern_positions(l)
                _bnd[l] = boundaries(l)
            cands = []
            for b in l.bvs:
                c = set(_bnd[l][b])
                for key, i, off, cf in pp[b]:
                    for args in apps.get(key, ()):
                        if i < len(args) and isinstance(args[i], Poly):
                            z = args[i]
                            if not has_bv(z):
                                c.add((z - off).scale(cf))
                    if isinstance(key, tuple) and key[0] in ('@EN', '@RK'):
                        # the enumeration and its inverse cancel: EN at RK(t) is t
                        for z in idx:
                            x = z.atom()
                            if x is not None and x.kind == 'en' and x.data[1] is key[1] and x.data[0] != key[0][1:]:
                                c.add((z - off).scale(cf))
                if not pp[b]:
                    c |= idx
                cands.append(sorted(c, key=lambda p: p.id))
            import itertools
            tot = 1
            for c in cands:
                tot *= max(len(c), 1)
            if tot > MAXINST:
                cands = [c[:12] for c in cands]
            for combo in itertools.product(*cands):
                k = (l, combo)
                if k in done:
                    continue
                done.add(k)
                b = inst(l, combo)
                if b is TRUE:
                    continue
                g2, u2 = [], []
                flatten(b, g2, u2)
                pend.extend(g2)
                univ.extend(u2)
                new += 1
                total += 1
            if total > MAXINST:
                break
        if not new and rnd >= 1:
            res = str(check())
            break
    dt = time.time() - t0
    STATS['z3'] += 1
    STATS['z3_time'] += dt
    if res == 'unknown' and not quick and (_dl is None or time.time() < _dl):
        r2 = cvc5_try(s, timeout or TIMEOUT)
        if r2 == 'unsat':
            STATS['cvc5'] += 1
            res = 'unsat'
    if want_model:
        m = None
        if res == 'sat':
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return res, m
    return res


def cvc5_try(s, timeout):
    try:
        import cvc5
    except Exception:
        return 'unknown'
    try:
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            out += str(o)
        return 'unsat' if 'unsat' in out else 'unknown'
    except Exception:
        return 'unknown'


def entails(hyps, goal, timeout=None, depth=0):
    """True when hyps |- goal is proved. Returns (ok, how)"""
    goal = B(goal)
    if goal is TRUE or goal in hyps:
        STATS['nf'] += 1
        return True, 'nf'
    if depth == 0:
        key = (frozenset(hyps), goal)
        r = _entc.get(key)
        if r is not None and (r[0][0] or r[1] >= (timeout or TIMEOUT)):
            STATS['cache'] += 1
            return r[0]
        r = entails1(hyps, goal, timeout, depth)
        _entc[key] = (r, timeout or TIMEOUT)
        return r
    return entails1(hyps, goal, timeout, depth)


def entails1(hyps, goal, timeout, depth):
    if goal.kind == 'and':
        how = 'nf'
        for g in goal.data:
            ok, h = entails(hyps, g, timeout, depth)
            if not ok:
                return False, h
            if h != 'nf':
                how = h
        return True, how
    if goal.kind == 'forall':
        l = goal.data[0]
        vs = [uvar('sk') for _ in l.bvs]
        return entails(hyps, inst(l, [P(v) for v in vs]), timeout, depth)
    if goal.kind == 'or':
        # move all but quantified / equality disjuncts to the hypotheses
        eqs = [g for g in goal.data if g.kind in ('eq', 'forall') or _hasq(g)]
        if len(eqs) == 1:
            rest = [NOT(g) for g in goal.data if g is not eqs[0]]
            return entails(list(hyps) + rest, eqs[0], timeout, depth)
    if goal.kind == 'eq':
        p = goal.data[0]
        if is_zero(p):
            STATS['nf'] += 1
            return True, 'nf'
        r = eq_split(list(hyps), p, timeout, 0)
        if r:
            return True, r
        return False, 'unproved'
    r = unsat(list(hyps) + [NOT(goal)], timeout)
    if r == 'unsat':
        return True, 'z3'
    # case split on integer equalities occurring in iv conditions / conds
    if depth < 3:
        c = split_cond(list(hyps) + [goal])
        if c is not None:
            for lit in (c, NOT(c)):
                h2, g2 = assume(list(hyps), lit, goal)
                ok, _ = entails(h2, g2, timeout, depth + 1) if g2 is not None else (True, '')
                if not ok:
                    return False, r
            return True, 'z3+split'
    return False, r


def entails_in(ms, hyps, goal, timeout=None):
    """entails within a total time"""
    global _dl
    old = _dl
    _dl = time.time() + ms / 1000
    try:
        return entails(hyps, goal, timeout)
    finally:
        _dl = old


_dl = None


def split_cond(bs):
    return None


def assume(hyps, lit, goal):
    """add literal; when it is an integer equality v = e substitute it"""
    mp = solve_eq(lit)
    if mp:
        return [subst(h, mp) for h in hyps], subst(goal, mp)
    return hyps + [lit], goal


def solve_eq(lit):
    if lit.kind != 'eq':
        return None
    q = lit.data[0]
    if not q.is_int():
        return None
    for m, c in q.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and abs(c) == 1 \
                and '#' in m[0][0].data[0]:
            v = m[0][0]
            e = P(v) - q.scale(Fraction(1) / c)
            if v in e.fv:
                continue
            return {v: e}
    return None


def eq_split(hyps, p, timeout, depth):
    """prove p == 0 under hyps by splitting on Iverson conditions"""
    if is_zero(p):
        return 'nf'
    ivs = top_ivs(p)
    if ivs and depth < 10:
        a = ivs[0]
        c = a.data[0]
        how = 'nf+split'
        for lit, val in ((c, 1), (NOT(c), 0)):
            q = set_iv(p, a, val)
            if is_zero(q):
                continue
            mp = solve_eq(lit)
            h2 = hyps + [lit]
            if mp:
                q = subst(q, mp)
                h2 = [subst(x, mp) for x in h2]
            if is_zero(q):
                continue
            # infeasible case?
            if unsat(h2, 1000, rounds=2) == 'unsat':
                continue
            r = eq_split(h2, q, timeout, depth + 1)
            if not r:
                return None
            if r == 'z3':
                how = 'z3'
        return how
    # rewrite with integer equalities among the hypotheses
    for h in hyps:
        mp = solve_eq(h)
        if mp:
            q = subst(p, mp)
            if q is not p:
                return eq_split([subst(x, mp) for x in hyps if x is not h], q, timeout, depth)
    r = unsat(hyps + [NOT(EQ0(p))], timeout)
    if r == 'unsat':
        return 'z3'
    return None
