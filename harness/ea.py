"""runs of the evolutionary optimizers with a recording objective"""
import importlib
import os
import tempfile
import numpy as np


class Fun:
    """deterministic row-wise objective; keeps everything it was asked and
    answered; its answers are its own arrays (never shared between calls)"""

    def __init__(self, rng, d, box):
        self.A = rng.randn(d)
        self.c = box[:, 0] + rng.rand(d) * (box[:, 1] - box[:, 0])
        self.w = np.maximum(box[:, 1] - box[:, 0], 1e-3)
        self.kind = rng.randint(5)
        self.shift = float(rng.choice([0, 0, 1e3, -1e3]))
        self.flat = rng.randint(2)
        self.X, self.Y, self.args = [], [], []

    def val(self, X):
        Z = (X - self.c) / self.w
        if self.kind == 0:
            y = np.sum(Z ** 2, axis=1)
        elif self.kind == 1:
            y = np.sum(np.sin(7 * Z) + Z * self.A, axis=1)
        elif self.kind == 2:
            y = np.round(3 * np.sum(np.abs(Z), axis=1))         # ties
        elif self.kind == 3:
            y = np.zeros(len(Z))                                 # constant
        else:
            y = Z @ self.A                                       # best at a corner
        return y + self.shift

    def __call__(self, X, *args):
        X = np.array(X, dtype=float)
        y = self.val(X)
        self.X.append(X)
        self.Y.append(y.copy())
        self.args.append(args)
        return y.copy() if self.flat else y.reshape(-1, 1).copy()


def build(rng):
    M = importlib.import_module('mfpml.optimization.evolutionary_algorithms')
    d = int(rng.randint(1, 5))
    lo = rng.uniform(-5, 5, d) * 10 ** rng.uniform(-2, 2)
    box = np.column_stack([lo, lo + 10 ** rng.uniform(-4, 3, d)])
    if rng.rand() < .3:
        box[:, :] = box[:1, :]
    if rng.rand() < .2:
        box = np.round(box).astype(int)
        box[:, 1] = np.maximum(box[:, 1], box[:, 0] + 1)
    n, g = int(rng.randint(3, 15) if rng.rand() < .9 else rng.randint(15, 120)), int(rng.choice([1, 2, 3, 6, 15]))
    f = Fun(rng, d, box.astype(float))
    if rng.rand() < .5:
        kw = dict(cognition_rate=rng.uniform(0, 4), social_rate=rng.uniform(0, 4), weight=rng.uniform(-1, 3), max_velocity_rate=rng.choice([.01, .2, 1., 5.])) if rng.rand() < .7 else {}
        o = M.PSO(n, g, **kw)
        nm = 'PSO'
    else:
        nm = ['DE/rand/1/bin', 'DE/best/1/bin'][rng.randint(2)]
        kw = dict(step_size=rng.choice([0, .5, 2., 30.]), crossover_rate=rng.choice([0, .3, .9, 1.])) if rng.rand() < .7 else {}
        o = M.DE(n, g, strategy=nm, **kw)
    y0 = f.val(box[:, 0] + rng.rand(200, d) * (box[:, 1] - box[:, 0]))
    stop = None if rng.rand() < .4 else float(rng.choice([np.quantile(y0, .02), np.quantile(y0, .5), y0.min(), 0, y0.max() + 1]))
    return o, f, d, n, g, box, stop, nm


def run(rng, o, f, d, box, stop, args=()):
    kw = {}
    if stop is not None:
        kw['stopping_error'] = stop
    if rng.rand() < .3:
        kw['print_info'] = True
    save = rng.rand() < .2
    if save:
        kw['save_step_results'] = True
    if args or rng.rand() < .5:
        kw['args'] = args
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        try:
            return o.run_optimizer(f, d, box, **kw)
        finally:
            os.chdir(old)
