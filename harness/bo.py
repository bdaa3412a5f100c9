"""problems, acquisition functions and recorders for the optimization loops (C18-C21)"""
import contextlib
import importlib
import numpy as np

G = importlib.import_module('mfpml.models.gaussian_process')


class Problem:
    """f over random tables of waves; keeps every point it was asked for"""

    def __init__(self, rng, d, optimum=None, q=0, coarse=False, infeas=0):
        self.d = self.num_dim = d
        lo = rng.uniform(-5, 5, d)
        self.input_domain = np.column_stack([lo, lo + rng.uniform(.5, 6, d)])
        self.w, self.p, self.c = rng.normal(size=(4, d)), rng.uniform(0, 6, 4), rng.normal(size=4)
        self.optimum = optimum
        self.coarse = coarse
        self.X, self.Y, self.C, self.XC = [], [], [], []
        self.calls = 0
        self.num_cons = q
        self.wc, self.pc = rng.normal(size=(max(q, 1), d)), rng.uniform(0, 6, max(q, 1))
        self.shift = infeas
        self.off = rng.choice([0., 0., 3., -3.])
        # sometimes constraints of a small scale: a tolerance on them would show
        self.small = rng.choice([1., 1., 1., 1e-7, 1e-12])

    def val(self, X):
        y = np.sin(np.asarray(X, dtype=float) @ self.w.T + self.p) @ self.c + self.off
        if self.coarse:
            y = np.round(y)
        return y.reshape(-1, 1)

    def con(self, X):
        g = np.sin(np.asarray(X, dtype=float) @ self.wc.T + self.pc) + self.shift
        return (np.round(g, 1) if self.coarse else g) * self.small

    def f(self, X):
        X = np.asarray(X)
        assert X.ndim == 2 and X.shape[1] == self.d
        self.calls += 1
        self.X.append(np.array(X, dtype=float))
        y = self.val(X)
        self.Y.append(y.copy())
        return y

    def f_cons(self, X):
        g = self.con(X)
        self.XC.append(np.array(X, dtype=float))
        self.C.append(g.copy())
        return g

    def data(self):
        return np.vstack(self.X), np.vstack(self.Y)


class Acq:
    """scripted proposals"""

    def __init__(self, rng, dom, flat, before=None, fid=None, ties=0.2):
        self.rng, self.dom, self.flat = rng, dom, flat
        self.before = before or (lambda a, kw: None)
        self.props, self.fids = [], []
        self.fid = fid
        self.ties = ties

    def query(self, *a, **kw):
        self.before(a, kw)
        if self.props and self.rng.rand() < self.ties:
            x = self.props[self.rng.randint(len(self.props))].copy()
        else:
            x = self.dom[:, 0] + self.rng.rand(len(self.dom)) * (self.dom[:, 1] - self.dom[:, 0])
            if self.rng.rand() < .2:
                x = np.where(self.rng.rand(len(x)) < .5, self.dom[:, 0], self.dom[:, 1])
        self.props.append(x.copy())
        x = x if self.flat else x.reshape(1, -1)
        if self.fid is None:
            return x
        f = int(self.fid(self.rng))
        self.fids.append(f)
        return x, f


class MFProblem(Problem):
    """two fidelities; every call is logged with its fidelity"""

    def __init__(self, rng, d, optimum=None, coarse=False):
        Problem.__init__(self, rng, d, optimum, coarse=coarse)
        self.X = [[], []]
        self.Y = [[], []]
        self.log = []

    def ask(self, X, fid):
        X = np.asarray(X)
        assert X.ndim == 2 and X.shape[1] == self.d
        y = self.val(X) if fid == 0 else self.val(X) * .5 - 1
        self.X[fid].append(np.array(X, dtype=float))
        self.Y[fid].append(y.copy())
        self.log.append((fid, len(X)))
        return y

    def hf(self, X):
        return self.ask(X, 0)

    def lf(self, X):
        return self.ask(X, 1)

    def __call__(self, X):
        return [self.hf(X[0]), self.lf(X[1])]

    def data(self, fid):
        return np.vstack(self.X[fid]), np.vstack(self.Y[fid])


@contextlib.contextmanager
def recorded(classes, fake=True):
    """every `train` of the given classes is recorded on the instance
    (`trained_on`: list of copies of its arguments) and, if fake, not run"""
    old = {}
    for K in classes:
        old[K] = K.__dict__.get('train')

        def train(self, *a, _K=K, **kw):
            args = list(a) + [kw[k] for k in ('X', 'Y', 'sample', 'response') if k in kw]
            if not self.__dict__.get('_vrec'):
                self.__dict__.setdefault('trained_on', []).append([copy(x) for x in args])
            if not fake:
                top = not self.__dict__.get('_vrec')
                self.__dict__['_vrec'] = True
                try:
                    return orig(_K)(self, *a, **kw)
                finally:
                    if top:
                        self.__dict__['_vrec'] = False

        def orig(K):
            if old[K] is not None:
                return old[K]
            return super(K, K).train
        K.train = train
    try:
        yield
    finally:
        for K, t in old.items():
            if t is not None:
                K.train = t
            else:
                del K.train


def copy(x):
    if isinstance(x, (list, tuple)):
        return [np.array(y) for y in x]
    return np.array(x)


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b)


def error(best, opt):
    if opt is None:
        return np.inf
    return abs(best - opt) / abs(opt) if opt != 0 else abs(best)
