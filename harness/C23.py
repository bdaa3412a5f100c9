import numpy as np
import ea

RULE = 'random boxes (1..4 dimensions), PSO and both DE strategies, random rates, objectives smooth, wavy, tied, constant, best at a corner, shifted; no stopping value, values reached early, late, at once, never; the same optimizer object run twice; non-trivial: the best value improved after the first population'
BOUND = 'populations 3..14 (one in ten up to 119), <= 15 generations'


def case(h, rng):
    o, f, d, n, g, box, stop, nm = ea.build(rng)
    for r in range(rng.randint(1, 3)):
        k0 = len(f.X)
        res, by, bx = ea.run(rng, o, f, d, box, stop)
        X, Y = f.X[k0:], f.Y[k0:]
        K = len(Y) - 1
        low = np.minimum.accumulate([y.min() for y in Y])
        info = dict(opt=nm, stop=stop, low=low, by=by, n=n, g=g)
        h.check(float(by) == low[-1], 'the best value is the lowest evaluated value', **info)
        at = lambda x, y, k: any(np.array_equal(p, np.ravel(x)) and q == y for A, B in zip(X[:k + 1], Y[:k + 1]) for p, q in zip(A, B))
        h.check(at(bx, float(by), K), 'the best point has the best value', bx=bx, **info)
        h.check(np.array_equal(np.ravel(res['best_x']), np.ravel(bx)) and np.ravel(res['best_y'])[0] == by, 'results dictionary agrees', **info)
        H, HX = np.asarray(res['best_y_historical']), np.asarray(res['best_x_historical'])
        h.check(len(H) == len(HX) == g + 1, 'one entry for the initial population and each generation', H=H.shape, HX=HX.shape, **info)
        h.check(np.array_equal(H[:K + 1].ravel(), low), 'each entry is the lowest value up to its generation', H=H, **info)
        for k in range(min(K + 1, len(HX))):
            h.check(at(HX[k], low[k], k), 'each entry is the value of the listed point', k=k, HX=HX, **info)
        if stop is None:
            h.check(K == g, 'all generations were run', K=K, **info)
        else:
            h.check(all(not y < stop for y in low[1:K]), 'stopped at the first generation below the stopping value', K=K, **info)
            h.check(K == g or (K >= 1 and low[-1] < stop), 'the run stopped at its end or below the stopping value', K=K, **info)
        if low[-1] < low[0]:
            h.nontrivial((nm, n, d, g, f.kind, float(by)))
    h.sample(optimizer=nm, best=by, history=low)


CASES = [('run', case, 900, 12000)]
