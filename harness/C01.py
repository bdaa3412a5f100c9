import numpy as np
from mfpml.design_of_experiment import mf_samplers as MS
from mfpml.design_of_experiment import sf_samplers as SS
from ref import space

RULE = ('every sampler, d 1-8, n 1-80, random design spaces (numpy array or nested list), seed, skip, 1-4 fidelities, shared or own '
        'spaces, nested or not; non-trivial: n > 1 and d > 1')
BOUND = 'd <= 8; n <= 80, rarely <= 1099; fidelities <= 4'
SF = ('LatinHyperCube', 'RandomSampler', 'SobolSequence', 'FixNumberSampler')


def in_box(h, what, s, n, ds):
    s = np.asarray(s)
    w = ds[:, 1] - ds[:, 0]
    t = 1e-12 * (np.abs(ds).max(axis=1) + w)
    h.check(s.shape == (n, len(ds)), '%s: shape' % what, got=s.shape, n=n, d=len(ds))
    h.check(s.shape == (n, len(ds)) and np.all(np.isfinite(s)) and np.all(s >= ds[:, 0] - t) and np.all(s <= ds[:, 1] + t),
            '%s: inside the design space' % what, s=s, ds=ds)


def slices(h, what, s, n, ds):
    u = (np.asarray(s) - ds[:, 0]) / (ds[:, 1] - ds[:, 0]) * n
    r = np.sort(u, axis=0)
    k = np.arange(n)[:, None]
    h.check(np.all(r >= k - 1e-7) and np.all(r <= k + 1 + 1e-7), '%s: one point in each slice' % what, s=s, ds=ds)


def form(rng, ds):
    return [ds.copy(), ds.tolist(), [tuple(x) for x in ds]][rng.randint(3)]


def big(rng, d):
    ds = space(rng, d)
    if rng.rand() < .3:
        ds = ds * 10 ** rng.uniform(-4, 4, (d, 1))
    if rng.rand() < .2:
        ds = np.column_stack([ds[:, 0] - ds[:, 1], np.zeros(d)]) - .0
        ds[:, 0] = -np.abs(ds[:, 0])
    return ds


def single(h, rng):
    d, n = rng.randint(1, 9), rng.randint(1, 81) if rng.rand() < .97 else rng.randint(200, 1100)
    ds = big(rng, d)
    c = SF[rng.randint(4)]
    kw = {}
    if c == 'SobolSequence' and rng.rand() < .5:
        kw['num_skip'] = int(rng.randint(0, 40))
    g = getattr(SS, c)(design_space=form(rng, ds), **kw)
    for _ in range(rng.randint(1, 3)):
        n = int(rng.randint(1, 81))
        s = g.get_samples(num_samples=n, seed=int(rng.randint(10 ** 6)))
        if c == 'FixNumberSampler':
            h.check(np.array_equal(s, np.tile(ds.ravel(), (n, 1))), 'the design space repeated', got=s, ds=ds)
        else:
            in_box(h, c, s, n, ds)
            if c == 'LatinHyperCube':
                slices(h, c, s, n, ds)
            if n > 3:
                h.check(len(np.unique(s, axis=0)) == n and np.all(np.ptp(s, axis=0) > 0), '%s: points differ' % c, s=s)
    h.nontrivial((c, d, n)) if d > 1 and n > 1 else None
    h.sample(sampler=c, d=d, n=n)


def multi(h, rng):
    d, nf = rng.randint(1, 9), rng.randint(1, 5)
    c = ('MFLatinHyperCube', 'MFSobolSequence')[rng.randint(2)]
    shared = rng.rand() < .5
    nested = shared and rng.rand() < .5
    kw = {}
    if c == 'MFSobolSequence' and rng.rand() < .5:
        kw['num_skip'] = int(rng.randint(0, 40))
    if shared:
        sp = [big(rng, d)] * nf
        kw.update(design_space=sp[0].copy(), num_fidelity=nf)
    else:
        sp = [big(rng, d) for _ in range(nf)]
        kw.update(design_space=[x.copy() for x in sp])
    g = getattr(MS, c)(nested=nested, **kw)
    for _ in range(rng.randint(1, 3)):
        ns = sorted(int(x) for x in rng.randint(1, 60, nf))
        r = g.get_samples(num_samples=list(ns), seed=int(rng.randint(10 ** 6)))
        h.check(len(r) == nf, 'one plan per fidelity', got=len(r), nf=nf)
        for k in range(nf):
            in_box(h, '%s fidelity %d' % (c, k), r[k], ns[k], sp[k])
            if c == 'MFLatinHyperCube' and (not nested or k == nf - 1):
                slices(h, '%s fidelity %d' % (c, k), r[k], ns[k], sp[k])
    if nf > 1:
        i = rng.randint(nf - 1)
        bad = list(ns)
        bad[i] = bad[i + 1] + int(rng.randint(1, 5))
        try:
            g.get_samples(num_samples=list(bad), seed=3)
            h.check(False, 'more high- than low-fidelity points are refused', ns=bad)
        except (AssertionError, ValueError):
            h.check(True, 'refused')
    h.nontrivial((c, d, nf, nested, shared)) if d > 1 else None
    h.sample(sampler=c, d=d, ns=ns, nested=nested, shared=shared)


CASES = [('single fidelity', single, 700, 12000), ('multi-fidelity', multi, 500, 8000)]
