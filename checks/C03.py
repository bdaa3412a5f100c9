"""C03  a seed fixes the plan"""
from base import *
from C01 import SM, MM, space

SF = ('LatinHyperCube', 'RandomSampler', 'SobolSequence', 'FixNumberSampler')


def disturb(v, k):
    """the global generator in an arbitrary state"""
    v.c.rng = N.RNG(SNum(P(var('other_rng%d' % k, 'I'))))


def differ(v, name, a, c):
    """two lists of logged seeds: not the same (None is not a seed)"""
    if any(x is None for x in a + c):
        v.fail(name, 'a generator was not seeded')
    elif len(a) != len(c):
        v.ok(name)
    elif not a or any(isinstance(x, N.RNG) for x in a + c):
        v.fail(name, 'no generator was seeded' if not a else 'seeded by another generator')
    else:
        v.ensure(name, Or(*[Not(eqn(x, y)) for x, y in zip(a, c)]))


def mk(make, request, other, nplans, random):
    """make(v, R) -> sampler; request(v, sampler, seed) -> list of plans; other(v, sampler) draws something else"""
    def s(v):
        R = setup(v)
        seed, seed2 = v.int('seed', 0), v.int('seed2', 0)
        log = v.c.ghost['seeds']
        g = make(v, R)
        a = [A.copy(x) for x in request(v, g, seed)]
        first = list(log)
        disturb(v, 1)
        same_ = request(v, g, seed)
        for k in range(nplans):
            v.ensure_eq('same object, again: plan %d' % k, same_[k], a[k])
        other(v, g)
        disturb(v, 2)
        g2 = make(v, R)
        new = request(v, g2, seed)
        for k in range(nplans):
            v.ensure_eq('new object, after other draws: plan %d' % k, new[k], a[k])
        other(v, g)
        third = request(v, g, seed)
        for k in range(nplans):
            v.ensure_eq('same object, after other draws: plan %d' % k, third[k], a[k])
        if random:
            v.assume(Not(eqn(seed, seed2)))
            del log[:]
            request(v, g, seed2)
            differ(v, 'another seed seeds the generators differently', first, list(log))
            if random == 'fidelities':
                for p in range(nplans):
                    for q in range(p):
                        differ(v, 'fidelities %d and %d are seeded differently' % (q, p), first[p:p + 1], first[q:q + 1])
    return s


def sf(cls, **kw):
    def make(v, R):
        ds = box(v, v.dim('d'))
        return getattr(R.load(SM), cls)(design_space=ds, **{k: v.int('skip', 0) for k in kw})

    def request(v, g, seed):
        return [g.get_samples(num_samples=v.dim('n'), seed=seed)]

    def other(v, g):
        g.get_samples(num_samples=v.dim('n_other'), seed=v.int('seed_other', 0))
    return mk(make, request, other, 1, cls != 'FixNumberSampler')


def mf(cls, nf, nested, **kw):
    def make(v, R):
        ds = box(v, v.dim('d'))
        return getattr(R.load(MM), cls)(design_space=ds, num_fidelity=nf, nested=nested, **{k: v.int('skip', 0) for k in kw})

    def counts(v, nm):
        ns = [v.dim('%s0' % nm)]
        for k in range(1, nf):
            ns.append(v.dim('%s%d' % (nm, k)))
            v.assume(ns[k - 1] <= ns[k])
        return vc.L(ns)

    def request(v, g, seed):
        return list(g.get_samples(num_samples=counts(v, 'n'), seed=seed))

    def other(v, g):
        g.get_samples(num_samples=counts(v, 'm'), seed=v.int('seed_other', 0))
    return mk(make, request, other, nf, 'fidelities' if cls == 'MFLatinHyperCube' and not nested else True)


SCENARIOS = [(c, sf(c)) for c in SF] + [('SobolSequence, any skip', sf('SobolSequence', num_skip=1))]
SCENARIOS += [('%s, %d fidelities%s' % (c, k, ', nested' if ne else ''), mf(c, k, ne)) for c in ('MFLatinHyperCube', 'MFSobolSequence')
              for k in (2, 3) for ne in (False, True)] + [('MFSobolSequence, any skip', mf('MFSobolSequence', 2, False, num_skip=1))]
ASSUMPTIONS = ['a scipy or numpy generator is a function of its seed; that different seeds give different numbers is checked at run '
               'time (proved: the seeds handed to the generators differ)', 'number of fidelities 2 and 3 in the proofs']
