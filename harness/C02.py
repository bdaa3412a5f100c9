import numpy as np
from mfpml.design_of_experiment import mf_samplers as MS
from C01 import big

RULE = 'both nested samplers, d 1-6, 2-4 fidelities, equal and different counts, any seed, skip; non-trivial: more low- than high-fidelity points'
BOUND = 'd <= 6; n <= 60; fidelities <= 4'


def case(h, rng):
    d, nf = rng.randint(1, 7), rng.randint(2, 5)
    c = ('MFLatinHyperCube', 'MFSobolSequence')[rng.randint(2)]
    kw = {}
    if c == 'MFSobolSequence' and rng.rand() < .5:
        kw['num_skip'] = int(rng.randint(0, 40))
    ds = big(rng, d)
    ns = sorted(int(x) for x in rng.randint(1, 60, nf))
    if rng.rand() < .3:
        ns = [ns[0]] + ns[:-1]
    seed = int(rng.randint(10 ** 6))
    shared = dict(design_space=ds.copy(), num_fidelity=nf) if rng.rand() < .7 else dict(design_space=[ds.copy() for _ in range(nf)])
    g = getattr(MS, c)(nested=True, **shared, **kw)
    if rng.rand() < .5:
        g.get_samples(num_samples=sorted(int(x) for x in rng.randint(1, 60, nf)), seed=int(rng.randint(10 ** 6)))
    r = g.get_samples(num_samples=list(ns), seed=seed)
    for k in range(nf - 1):
        low = {}
        for row in r[k + 1]:
            low[row.tobytes()] = low.get(row.tobytes(), 0) + 1
        used = {}
        for row in r[k]:
            used[row.tobytes()] = used.get(row.tobytes(), 0) + 1
        h.check(r[k].shape == (ns[k], d), 'shape', got=r[k].shape)
        h.check(all(x in low for x in used), '%s: every point of fidelity %d is a point of the next' % (c, k), hf=r[k], lf=r[k + 1])
        h.check(all(used[x] <= low.get(x, 0) for x in used), '%s: no point is used twice' % c, hf=r[k])
    f = getattr(MS, c)(nested=False, **shared, **kw).get_samples(num_samples=list(ns), seed=seed)
    h.check(np.array_equal(r[-1], f[-1]), '%s: lowest fidelity as without nesting' % c, got=r[-1], want=f[-1])
    h.nontrivial((c, d, tuple(ns))) if ns[0] < ns[-1] else None
    h.sample(sampler=c, d=d, ns=ns, seed=seed)


CASES = [('nested', case, 900, 15000)]
