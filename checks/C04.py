"""C04  arguments are left alone; results share no memory with them

Every scenario of the other properties calls the public API on symbolic
arguments.  Here the same scenarios run with another postcondition: every array
and list that the scenario made and handed out holds at the end what it held
when it was made (a frame condition on the real code, on every path), and the
arrays whose shape the scenario looks at (results) live in other buffers."""
import importlib
import sys
from base import *
import explore
import models as M

HERE = __file__.rsplit('/', 1)[0]


class FV(explore.V):
    """scenario view that only keeps the frame"""

    def __init__(self, v, fresh):
        explore.V.__init__(self, v.ver, v.c)
        self.held, self.lists, self.fresh = [], [], fresh

    def array(self, name, *shape):
        a = explore.V.array(self, name, *shape)
        if not name.startswith('plan'):      # results of the sampler stub are not arguments
            self.held.append((name, a, a._shape, a.nsnap()))
        return a

    def list(self, x):
        r = L0(x)
        self.lists.append((r, list(r)))
        return r

    def ensure(self, *a, **k):
        self.skip()
        return True

    ensure_forall = ensure_eq = sum_nonneg = fail = ok = ensure

    def ensure_shape(self, name, a, shape):
        if self.fresh and isinstance(a, SArr) and not self.skip() and not any(a is h[1] for h in self.held):
            hit = [h[0] for h in self.held if h[1].buf is a.buf]
            self.ver.record(self.c, 'result shares no memory with the arguments', 'fail' if hit else 'ok',
                            'same buffer as %s (%s)' % (hit, name) if hit else 'separate buffers')
        return True

    def frame(self):
        V = explore.V
        for name, a, sh, f in self.held:
            V.ensure(self, 'shape of argument %s' % name, AND(*[EQ(p, q) for p, q in zip(a._shape, sh)]) if len(sh) == a.ndim else FALSE)
            if a.ndim == len(sh):
                g = a.nsnap()
                V.ensure_forall(self, 'argument %s as before' % name, sh, lambda *i: EQ(g(tuple(x.p for x in i)), f(tuple(x.p for x in i))))
        for r, old in self.lists:
            now = list(r)
            good = r.concrete() and len(now) == len(old) and all(
                p is q or (isinstance(p, SNum) and isinstance(q, SNum) and self.c.prove(EQ(p.p, q.p))) for p, q in zip(now, old))
            self.ver.record(self.c, 'argument list as before', 'ok' if good else 'fail', '%d items' % len(old))


L0 = vc.L


def frame(fn, fresh):
    def s(v):
        w = FV(v, fresh)

        def L(x):
            r = L0(x)
            if sys._getframe(1).f_code.co_filename.startswith(HERE):
                w.lists.append((r, list(r)))
            return r
        vc.L = L
        try:
            fn(w)
        finally:
            vc.L = L0
        w.frame()
    return s


def surrogate(kind, noise):
    """train, predict; a Gaussian process also after its training arrays (and the
    design space) were overwritten"""
    def run(v):
        env = M.Env(v)
        m = env.model(kind, env.noise(noise))
        X, Y = env.data(kind)
        Xn = v.array('Xn', env.m, env.d)
        m.train(X, Y)
        old = None
        for std in (False, True):
            r = m.predict(Xn, return_std=std)
            for q, a in enumerate(r if std else (r,)):
                v.ensure_shape('predict', a, (env.m, 1))
            if kind != 'gp':
                r = m.predict_lf(Xn, return_std=std)
                for q, a in enumerate(r if std else (r,)):
                    v.ensure_shape('predict_lf', a, (env.m, 1))
        if kind == 'gp':
            def got():
                mean, std = m.predict(Xn, return_std=True)
                return A.copy(mean), A.copy(std), A.copy(m.predict(Xn))
            one = got()
            v.frame()
            X[...] = v.array('X2', env.n, env.d)
            Y[...] = v.array('Y2', env.n, 1)
            v.held = [h for h in v.held if h[0] not in ('X', 'Y')]
            for nm, p, q in zip(('mean', 'deviation', 'mean alone'), one, got()):
                explore.V.ensure_eq(v, '%s after the training arrays were overwritten' % nm, q, p)
    return frame(run, True)


def correlation(kind):
    """correlations with the training points (what acquisition functions of two fidelities ask for)"""
    def run(v):
        env = M.Env(v)
        m = env.model(kind, fl('0.0'), optimizer_restart=0)
        X, Y = env.data(kind)
        m.train(X, Y)
        P = v.array('P', env.m, env.d)
        for f in (0, 1):
            v.ensure_shape('correlation', m._eval_corr(P, X[f], fidelity=f), (env.m, X[f].shape[0]))
            m._eval_corr(m._get_sample_hf, m._get_sample_lf, fidelity=f)
        v.ensure_shape('scaled points', m.normalize_input(P), (env.m, env.d))
        m.normalize_input(m._get_sample_hf)
    return frame(run, True)


def acquisition(name, kind):
    """acquisition functions of a real (trained) Gaussian process"""
    def run(v):
        env = M.Env(v)
        m = env.model(kind, fl('0.0'), optimizer_restart=0)
        X, Y = env.data(kind)
        m.train(X, Y)
        P, g = v.array('P', env.m, env.d), v.array('g', env.d)
        hooks = v.c.ghost['de'] = []
        acq = getattr(env.R.load(AQ[0]), name)()
        acq.query(surrogate=m)
        for h in hooks:
            h[3](g, *h[4])
        for x in (P, g, P):
            acq.eval(x, m)
    return frame(run, False)


def constrained(v):
    env = M.Env(v)
    ms = [env.model('gp', fl('0.0'), optimizer_restart=0) for _ in range(2)]
    D = [env.data('gp', tag=str(k)) for k in range(2)]
    for m, (X, Y) in zip(ms, D):
        m.train(X, Y)
    P, g = v.array('P', env.m, env.d), v.array('g', env.d)
    hooks = v.c.ghost['de'] = []
    acq = env.R.load(AQ[1]).CEI()
    cons = v.list([ms[1]])
    acq.query(obj_surrogate=ms[0], cons_surrogate=cons)
    hooks[0][3](g, *hooks[0][4])
    acq.eval(P, ms[0], cons)


AQ = ['mfpml.optimization.' + k for k in ('sf_uncons_acqusitions', 'sf_cons_acqusitions', 'mf_acqusitions')]
KEEP = {'C01': None, 'C15': None, 'C16': None, 'C17': None, 'C18': ('start', 'run, unknown optimum, matrix', 'run, known optimum, row'),
        'C19': ('start', 'run, 1 constraint, unknown optimum', 'run, 3 constraints'),
        'C20': ('start', 'run HierarchicalKriging', 'run CoKriging'), 'C22': ('PSO', 'DE/rand/1/bin', 'DE/best/1/bin'),
        'C24': None, 'C25': None}
DROP = ('refuse', 'run again', 'stopping value', 'defined everywhere', 'attributes of the model', 'used before')
FRESH = ('C01', 'C24', 'C25')       # scenarios whose ensure_shape looks at returned arrays
SCENARIOS = [('%s, %s noise' % (k, z), surrogate(k, z)) for k in ('gp', 'hk', 'sk', 'ck') for z in ('zero', 'given', 'learned')]
SCENARIOS += [('%s on a Gaussian process' % n, acquisition(n, 'gp')) for n in ('LCB', 'EI', 'PI')]
SCENARIOS += [('correlation, %s' % k, correlation(k)) for k in ('hk', 'sk')]
SCENARIOS.append(('CEI on Gaussian processes', frame(constrained, False)))
for mod, keep in KEEP.items():
    for sc in importlib.import_module(mod).SCENARIOS:
        if any(w in sc[0] for w in DROP) or keep is not None and not sc[0].startswith(keep):
            continue
        SCENARIOS.append(('%s: %s' % (mod, sc[0]), frame(sc[1], mod in FRESH)) + tuple(sc[2:]))
ASSUMPTIONS = ['callbacks handed to the library (objectives, kernels, bases, optimizers) leave their arguments alone']
