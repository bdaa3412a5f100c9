import numpy as np
from mfpml.design_of_experiment import mf_samplers as MS
from mfpml.design_of_experiment import sf_samplers as SS
from C01 import SF, big

RULE = ('every sampler, d 1-6, any seed (0 included), random histories of other draws (other sizes, seeds, samplers, global generator) '
        'between two equal requests; non-trivial: at least one other draw in between')
BOUND = 'd <= 6; n <= 60; fidelities <= 4; histories of up to 5 draws'


def noise(rng, objs, counts):
    for _ in range(rng.randint(0, 6)):
        k = rng.randint(4)
        if k == 0:
            np.random.seed(int(rng.randint(1000)))
        elif k == 1:
            np.random.rand(int(rng.randint(1, 9)))
        else:
            objs[rng.randint(len(objs))].get_samples(num_samples=counts(), seed=int(rng.randint(10 ** 6)))


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def run(h, rng, make, counts, wrap, name, random, per_fid=False):
    seed = [0, int(rng.randint(10 ** 6))][rng.rand() < .9]
    n = counts()
    cp = (lambda: list(n)) if isinstance(n, list) else (lambda: n)
    g, o = make(), make()
    req = lambda s, sd: [np.array(x) for x in wrap(s.get_samples(num_samples=cp(), seed=sd))]
    noise(rng, [g, o], counts)
    a = req(g, seed)
    noise(rng, [g, o], counts)
    h.check(same(req(g, seed), a), '%s: same object, same seed' % name, n=n, seed=seed)
    noise(rng, [g, o], counts)
    h.check(same(req(make(), seed), a), '%s: new object, same seed' % name, n=n, seed=seed)
    if random:
        b = req(g, seed + int(rng.randint(1, 9)))
        h.check(not same(a[-1:], b[-1:]), '%s: another seed, another plan' % name, n=n, seed=seed)
        if per_fid:
            for i in range(len(a)):
                for j in range(i):
                    k = min(len(a[i]), len(a[j]))
                    h.check(not np.array_equal(a[i][:k], a[j][:k]), '%s: fidelities %d and %d differ' % (name, j, i))
    h.nontrivial((name, str(n), seed))
    h.sample(sampler=name, n=n, seed=seed)


def single(h, rng):
    d = rng.randint(1, 7)
    ds = big(rng, d)
    c = SF[rng.randint(4)]
    kw = {'num_skip': int(rng.randint(0, 40))} if c == 'SobolSequence' and rng.rand() < .5 else {}
    run(h, rng, lambda: getattr(SS, c)(design_space=ds.copy(), **kw), lambda: int(rng.randint(2, 60)), lambda r: [r], c,
        c != 'FixNumberSampler')


def multi(h, rng):
    d, nf = rng.randint(1, 7), rng.randint(2, 5)
    ds = big(rng, d)
    c = ('MFLatinHyperCube', 'MFSobolSequence')[rng.randint(2)]
    kw = {'num_skip': int(rng.randint(0, 40))} if c == 'MFSobolSequence' and rng.rand() < .5 else {}
    nested = bool(rng.rand() < .5)
    run(h, rng, lambda: getattr(MS, c)(design_space=ds.copy(), num_fidelity=nf, nested=nested, **kw),
        lambda: sorted(int(x) for x in rng.randint(2, 60, nf)), list, c, True, c == 'MFLatinHyperCube' and not nested)


CASES = [('single fidelity', single, 500, 9000), ('multi-fidelity', multi, 500, 9000)]
