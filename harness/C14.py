import numpy as np
import scipy.optimize
from mfpml.models import co_kriging, gaussian_process, hierarchical_kriging
from mfpml.models.kernels import RBF
from mfpml.optimization.evolutionary_algorithms import DE, PSO
from ref2 import *

RULE = ('random space and data as in C08, noise in {0, given, learned}, 0..4 restarts; the local search is the real one or scripted '
        '(points of the box, with ties), or a population optimizer (DE, PSO); non-trivial: more than one restart')
BOUND = 'd <= 3, n <= 17, condition number < 1e9'
MODS = (co_kriging, gaussian_process, hierarchical_kriging)


def nll(K, F, y, conc):
    k = Krig(K, F, y)
    n = len(y)
    _, ld = np.linalg.slogdet(K)
    return n / 2 * (np.log(k.s2) if conc else k.s2) + ld / 2, max(k.cond, k.condF)


class Spy:
    def __init__(self, rng, scripted):
        self.rng, self.scripted, self.calls = rng, scripted, []
        self.real = scipy.optimize.minimize

    def __call__(self, fun, x0, args=(), method=None, bounds=None, **kw):
        bd = np.array(bounds, float)
        args = args if isinstance(args, tuple) else (args,)
        if self.scripted:
            same = [c for c in self.calls if c['b'].shape == bd.shape and np.all(c['b'] == bd)]
            x = same[-1]['x'].copy() if same and self.rng.rand() < .3 else bd[:, 0] + self.rng.uniform(.35, .95, len(bd)) * (bd[:, 1] - bd[:, 0])
            r = scipy.optimize.OptimizeResult(x=x, fun=float(np.ravel(fun(x, *args))[0]), success=bool(self.rng.rand() < .6), message='', nit=1, nfev=1, status=0)
        else:
            r = self.real(fun, x0, args=args, method=method, bounds=bounds, **kw)
            if self.rng.rand() < .4:
                r.success = False      # e.g. an abnormal line search: x and fun are still the best found
        self.calls.append({'x': np.array(r.x, float).copy(), 'f': float(np.ravel(r.fun)[0]), 'b': bd, 'x0': np.array(x0, float).copy()})
        return r

    def __enter__(self):
        self.old = [(m, m.minimize) for m in MODS if hasattr(m, 'minimize')]
        for m, _ in self.old:
            m.minimize = self
        scipy.optimize.minimize = self
        return self

    def __exit__(self, *a):
        for m, o in self.old:
            m.minimize = o
        scipy.optimize.minimize = self.real


class Pop:
    """records the searches given to a population optimizer"""

    def __init__(self, rng, real):
        self.rng, self.real, self.calls = rng, real, []

    def run_optimizer(self, func=None, num_dim=None, design_space=None, *a, **k):
        bd = np.array(design_space, float)
        seen = []

        def f(Z, *aa):
            y = func(Z, *aa)
            seen.append((np.array(np.atleast_2d(Z), float).copy(), np.ravel(np.array(y, float)).copy()))
            return y
        if self.real is not None:
            r = self.real.run_optimizer(f, num_dim, bd)
            x = np.ravel(np.array(r[0]['best_x'], float)).copy()
        else:
            Z = bd[:, 0] + self.rng.uniform(.35, .95, (4, len(bd))) * (bd[:, 1] - bd[:, 0])
            y = np.ravel(f(Z))
            x = Z[np.argmin(y)]
            r = ({'best_x': x, 'best_y': np.min(y)}, y, Z)
        self.calls.append({'x': x, 'f': float(np.ravel(np.array(func(x), float))[0]), 'b': bd, 'n': num_dim, 'seen': seen})
        return r


def search(h, rng, kind, way):
    ds, Xh, Yh, Xl, Yl, f = mfdata(rng, noisy=rng.rand() < .5)
    noise = noise_of(rng, Yh)
    n, d = Xh.shape
    q = rng.randint(0, 5) if way == 'scripted' else rng.randint(0, 3)
    pop = None
    if way == 'pop':
        pop = Pop(rng, [None, DE(num_pop=6, num_gen=3), PSO(num_pop=6, num_gen=3)][rng.randint(3)])
    kb = [rng.uniform(-2, -.5), rng.uniform(.5, 2)]
    rb = [10 ** rng.uniform(-2, -.5), 10 ** rng.uniform(.1, 1)]
    kw = dict(design_space=ds, optimizer=pop, noise_prior=noise, optimizer_restart=q)
    if kind == 'gp':
        m = gaussian_process.GaussianProcessRegression(kernel=RBF(theta=np.zeros(d), bounds=kb), **kw)
    elif kind == 'hk':
        m = hierarchical_kriging.HierarchicalKriging(kernel_bound=kb, **kw)
    else:
        m = co_kriging.CoKriging(kernel_bound=kb, rho_bound=rb, **kw)
    with Spy(rng, way == 'scripted') as spy:
        if kind == 'gp':
            m.train(Xh.copy(), Yh.copy())
        else:
            m.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    calls = pop.calls if pop else spy.calls
    if not calls:
        h.skip()
    sd, mu = np.std(Yh), np.mean(Yh)
    xh, xl = norm(Xh, ds), norm(Xl, ds)
    yh = (Yh - mu) / sd
    I = np.eye
    searches = []                    # (name, dimension, reference objective, bounds, final parameters)

    def add(name, F, X, y, lev, kb_, model, param, lev_final, first=False):
        k = len(X)

        def ref(z):
            z = list(z)
            e = lev
            if lev is None:
                e = z.pop(-1)
            return nll(kern(X, X, 10 ** np.array(z)) + I(k) * e ** 2, F, y, lev == 0)
        b = [kb_] * d + ([[1e-5, 10]] if lev is None else [])
        searches.append((name, ref, np.array(b, float), np.append(np.log10(param), [lev_final] if lev is None else [])))
    if kind == 'gp':
        add('model', np.ones((n, 1)), xh, yh, None if noise is None else noise / sd, kb, m, m.kernel.param, m.noise / sd)
    elif kind == 'hk':
        sl, ml = np.std(Yl), np.mean(Yl)
        add('low-fidelity', np.ones((len(Xl), 1)), xl, (Yl - ml) / sl, None if noise is None else noise / sl,
            m.lfGP.kernel.bounds[0], m.lfGP, m.lfGP.kernel.param, m.lfGP.noise / sl)
        add('model', (m.lfGP.predict(Xh) - mu) / sd, xh, yh, None if noise is None else noise / sd, kb, m, m.kernel.param, m.noise / sd)
    else:
        lev = None if noise is None else noise / sd
        add('low-fidelity', np.ones((len(Xl), 1)), xl, (Yl - mu) / sd, lev, m.lfGP.kernel.bounds[0], m.lfGP,
            m.lfGP.kernel.param, m.lfGP.noise)
        ylh = m.lfGP.predict(xh)

        def ref(z):
            z = list(z)
            rho = z.pop(0)
            e = z.pop(0) if noise is None else lev
            return nll(kern(xh, xh, 10 ** np.array(z)) + I(n) * e ** 2, np.ones((n, 1)), yh - rho * ylh, noise == 0)
        b = [rb] + ([[1e-5, 10]] if noise is None else []) + [kb] * d
        z = np.concatenate([[m.rho], [m.noise] if noise is None else [], np.log10(m.kernel.param)])
        searches.append(('model', ref, np.array(b, float), z))
    h.nontrivial((kind, n, d, q, noise)) if q > 1 or pop else None
    h.sample(kind=kind, way=way, n=n, d=d, restarts=q, noise=noise)
    # the low-fidelity search comes first
    per = 1 if pop else q + 1
    h.check(len(calls) == per * len(searches), 'number of searches', got=len(calls), want=per * len(searches))
    if len(calls) != per * len(searches):
        return
    for i, (name, ref, b, z) in enumerate(searches):
        mine = calls[i * per:(i + 1) * per]
        for c in mine:
            h.check(c['b'].shape == b.shape and np.allclose(c['b'], b, rtol=1e-12, atol=0), name + ': search bounds', got=c['b'], want=b)
            if not pop:
                h.check(c['x0'].shape == (len(b),) and np.all(c['x0'] >= b[:, 0]) and np.all(c['x0'] <= b[:, 1]), name + ': start within the bounds')
            pts_ = [(c['x'], c['f'])]
            if pop:
                for Z, y in c['seen']:
                    h.check(y.shape == (len(Z),), name + ': one value per row', got=y.shape)
                    pts_ += list(zip(Z, y))[:3]
            for x, v in pts_:
                w, cond = ref(x)
                if not np.isfinite(cond) or cond > 1e9 or not np.isfinite(w):
                    continue
                h.check(close(v, w, 1e-6, 1e-6 * len(Xh) * max(1, cond ** .5 * 1e-2)), name + ': objective = negative log-likelihood',
                        kind=kind, x=x, got=v, want=w, noise=noise, Xh=Xh, Yh=Yh, Xl=Xl, Yl=Yl)
        h.check(z.shape == (len(b),) and np.all(z >= b[:, 0] - 1e-9) and np.all(z <= b[:, 1] + 1e-9),
                name + ': parameters within their bounds', got=z, bounds=b)
        low = min(c['f'] for c in mine)
        best = [c for c in mine if c['f'] == low]
        h.check(any(np.allclose(z, c['x'], rtol=1e-9, atol=1e-9) for c in best), name + ': parameters of the best search', got=z,
                found=[(c['x'].tolist(), c['f']) for c in mine])
        if noise is not None:
            final = {'gp': m.noise, 'hk': m.noise, 'ck': m.noise * sd}[kind]
            h.check(abs(final - noise) <= 1e-9 * sd, 'noise level is the given one', got=final, want=noise)


CASES = []
for k_, nm in (('gp', 'Gaussian process'), ('hk', 'hierarchical kriging'), ('ck', 'co-kriging')):
    for way, a, b in (('scripted', 100, 3000), ('real', 6, 100), ('pop', 60, 1000)):
        CASES.append(('%s, %s search' % (nm, way), lambda h, r, k_=k_, way=way: search(h, r, k_, way), a, b))
