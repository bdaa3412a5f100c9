import numpy as np
import ea

RULE = 'random boxes (1..4 dimensions, widths 1e-4..1e3, degenerate repeats, integers), PSO and both DE strategies, random rates (also extreme), objectives smooth, wavy, tied, constant, best at a corner; stopping values; the same optimizer object run twice; non-trivial: the best point moved after the first population'
BOUND = 'populations 3..14 (one in ten up to 119), <= 15 generations'


def case(h, rng):
    o, f, d, n, g, box, stop, nm = ea.build(rng)
    tol = 1e-12 * (np.abs(box).max(axis=1) + 1)
    args = () if rng.rand() < .5 else (np.arange(3.), 'x', {})
    for r in range(rng.randint(1, 3)):
        k0 = len(f.X)
        b0 = box.copy()
        res, by, bx = ea.run(rng, o, f, d, box, stop, args)
        h.check(np.array_equal(b0, box), 'design space left alone', box=box)
        for X, a in zip(f.X[k0:], f.args[k0:]):
            h.check(X.shape == (n, d), 'a whole population of the asked size', shape=X.shape, want=(n, d))
            h.check(X.shape[1] == d and np.all(X >= box[:, 0] - tol) and np.all(X <= box[:, 1] + tol), 'every point lies within the bounds', opt=nm, X=X, box=box)
            h.check(len(a) == len(args) and all(p is q for p, q in zip(a, args)), 'extra arguments are handed over unchanged', got=a)
        h.check(1 <= len(f.X) - k0 <= g + 1, 'at most one evaluation of the population per generation', calls=len(f.X) - k0, gen=g)
        bx = np.asarray(bx)
        h.check(bx.shape == (d,) and np.all(bx >= box[:, 0] - tol) and np.all(bx <= box[:, 1] + tol), 'best point within bounds', bx=bx, box=box)
        if np.argmin([y.min() for y in f.Y[k0:]]) > 0:
            h.nontrivial((nm, n, d, g, r, f.kind, tuple(bx)))
    h.sample(optimizer=nm, box=box, best=bx)


CASES = [('run', case, 900, 12000)]
