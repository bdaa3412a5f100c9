"""C01  sampling plans: size, bounds, slices, order of the fidelities"""
from base import *

SM, MM = 'mfpml.design_of_experiment.sf_samplers', 'mfpml.design_of_experiment.mf_samplers'


def space(v, form, name='ds'):
    """(design space argument, lower bound j, upper bound j, dimension)"""
    if form == 'array':
        d = v.dim(name + '_d')
        ds = box(v, d, name)
        return ds, lambda j: E(ds, j, 0), lambda j: E(ds, j, 1), d
    rows = []
    for j in range(form):
        lo, hi = v.real('%s_lo%d' % (name, j)), v.real('%s_hi%d' % (name, j))
        v.assume(lo < hi)
        rows.append(vc.L([lo, hi]))
    arr = asarr(vc.L(rows))
    return vc.L(rows), lambda j: E(arr, j, 0), lambda j: E(arr, j, 1), form


def in_box(v, what, s, n, d, lo, hi):
    v.ensure_shape('%s: asked number of points, one coordinate per dimension' % what, s, (n, d))
    v.ensure_forall('%s: every coordinate within the bounds of its dimension' % what, [n, d],
                    lambda i, j: And(lo(j) <= E(s, i, j), E(s, i, j) <= hi(j)))


def one_per_slice(v, what, s, n, d, lo, hi, calls):
    """some Latin hypercube of n points in d dimensions was drawn, and point i lies in
    its slice (a permutation of the slices: contract of scipy)"""
    good = [c for c in calls if v.c.prove(And(eqn(SNum(c[1]), d), eqn(SNum(c[2]), n)))]
    if not good:
        v.fail('%s: one point per slice' % what, 'no Latin hypercube of this size was drawn')
        return
    st = good[-1][0]

    def goal(i, j):
        k = SNum(app('lhsi', [st, to_poly(d), to_poly(n), i.p, j.p], 'I'))
        app_ = E(s, i, j) - lo(j)
        w = hi(j) - lo(j)
        SNum(app('lhs', [st, to_poly(d), to_poly(n), i.p, j.p]))
        return And(k >= 0, k < n, k * w <= n * app_, n * app_ <= (k + 1) * w,
                   eqn(SNum(app('lhsv', [st, to_poly(d), to_poly(n), k.p, j.p], 'I')), i))
    v.ensure_forall('%s: exactly one point in each slice' % what, [n, d], goal)


def mk_sf(cls, form, **kw):
    def s(v):
        R = setup(v)
        ds, lo, hi, d = space(v, form)
        n, seed = v.dim('n'), v.int('seed', 0)
        kk = {k: (v.int('skip', 0) if x == 'sym' else x) for k, x in kw.items()}
        g = getattr(R.load(SM), cls)(design_space=ds, **kk)
        r = g.get_samples(num_samples=n, seed=seed)
        if cls == 'FixNumberSampler':
            v.ensure_shape('one row per sample', r, (n, 2 * d))
            v.ensure_forall('every row is the flattened design space', [n, d], lambda i, j: And(
                eqn(E(r, i, 2 * j), lo(j)), eqn(E(r, i, 2 * j + 1), hi(j))))
            return
        in_box(v, cls, r, n, d, lo, hi)
        if cls == 'LatinHyperCube':
            one_per_slice(v, cls, r, n, d, lo, hi, v.c.ghost['lhs'])
    return s


def mk_mf(cls, nf, nested, shared, **kw):
    def s(v):
        R = setup(v)
        if shared:
            ds, lo, hi, d = space(v, 'array')
            sp = [(lo, hi)] * nf
            arg = dict(design_space=ds, num_fidelity=nf)
        else:
            d = v.dim('d')
            bs = [box(v, d, 'ds%d' % k) for k in range(nf)]
            sp = [(lambda j, b_=b_: E(b_, j, 0), lambda j, b_=b_: E(b_, j, 1)) for b_ in bs]
            arg = dict(design_space=vc.L(bs))
        ns = [v.dim('n0')]
        for k in range(1, nf):
            ns.append(v.dim('n%d' % k))
            v.assume(ns[k - 1] <= ns[k])
        kk = {k: (v.int('skip', 0) if x == 'sym' else x) for k, x in kw.items()}
        g = getattr(R.load(MM), cls)(nested=nested, **arg, **kk)
        r = g.get_samples(num_samples=vc.L(list(ns)), seed=v.int('seed', 0))
        v.ensure('one plan per fidelity', eqn(vc.vlen(r), nf))
        r = list(r)
        for k in range(nf):
            in_box(v, 'fidelity %d (the highest first)' % k, r[k], ns[k], d, *sp[k])
            if cls == 'MFLatinHyperCube' and (not nested or k == nf - 1):
                one_per_slice(v, 'fidelity %d' % k, r[k], ns[k], d, *sp[k], v.c.ghost['lhs'])
    return s


def mk_refuse(cls, nf, at):
    def s(v):
        R = setup(v)
        ds, lo, hi, d = space(v, 'array')
        ns = [v.dim('n%d' % k) for k in range(nf)]
        v.assume(ns[at] > ns[at + 1])
        g = getattr(R.load(MM), cls)(design_space=ds, num_fidelity=nf, nested=False)
        try:
            g.get_samples(num_samples=vc.L(ns), seed=v.int('seed', 0))
            v.fail('more high- than low-fidelity points are refused', 'no exception')
        except (AssertionError, ValueError):
            v.ok('more high- than low-fidelity points are refused')
    return s


SCENARIOS = [('%s, %s' % (c, 'array' if f == 'array' else 'list of %d rows' % f), mk_sf(c, f))
             for c in ('LatinHyperCube', 'RandomSampler', 'SobolSequence', 'FixNumberSampler') for f in ('array', 1, 2, 3)]
SCENARIOS += [('SobolSequence, any skip', mk_sf('SobolSequence', 'array', num_skip='sym'))]
SCENARIOS += [('%s, %d fidelities, %s, %s' % (c, k, 'nested' if ne else 'not nested', 'one space' if sh else 'own spaces'),
               mk_mf(c, k, ne, sh)) for c in ('MFLatinHyperCube', 'MFSobolSequence') for k in (1, 2, 3)
              for ne, sh in ((False, True), (False, False), (True, True))]
SCENARIOS += [('MFSobolSequence, any skip', mk_mf('MFSobolSequence', 2, True, True, num_skip='sym'))]
SCENARIOS += [('refused: %s %d fidelities, level %d' % (c, k, a), mk_refuse(c, k, a)) for c in ('MFLatinHyperCube', 'MFSobolSequence')
              for k in (2, 3) for a in range(k - 1)]
ASSUMPTIONS = ['scipy LatinHypercube.random(n) returns n points of the unit cube, one in each slice of every dimension; Sobol and '
               'random points lie in the unit cube', 'number of fidelities up to 3 in the proofs (any size and dimension)']
