"""The meaning the verifier gives to numpy / scipy operations, compared with the
installed numpy / scipy: each expression is evaluated symbolically (arrays of
symbolic sizes), the resulting term is evaluated numerically (evaluate.py) for
random sizes and values, and compared with the library's result."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'engine'), os.path.join(HERE, '..', 'checks'), HERE]
sys.setrecursionlimit(20000)
from base import *
import np_shim
import numpy
import scipy.linalg
import scipy.stats
import scipy.spatial.distance
from evaluate import Ev, Unknown

S = np_shim.build()
SYM = {'np': S['numpy'], 'slin': S['scipy.linalg'], 'norm': S['scipy.stats'].norm, 'dist': S['scipy.spatial.distance']}
REAL = {'np': numpy, 'slin': scipy.linalg, 'norm': scipy.stats.norm, 'dist': scipy.spatial.distance}

# arrays available to every expression (n, m, d symbolic)
SHAPES = {'a': 'n', 'b': 'n', 'c': 'm', 'A': 'nm', 'B': 'nm', 'C': 'md', 'K': 'nn', 'T': 'nmd', 'R': '1m', 'O': 'n1', 'p': 'n', 'x': '', 'y': ''}

EXPR = '''
a + b
A * 2 - B / 3
A + c
A - O
O * R
-A ** 2
A.T
A.sum()
A.sum(axis=0)
A.sum(axis=1)
np.sum(A, axis=1, keepdims=True)
np.sum(A, -1)
A.mean(axis=0)
np.mean(A)
np.std(A, axis=0)
np.var(a)
np.prod(R)
np.min(A)
np.max(A, axis=0)
A.min(axis=1)
np.amin(a)
np.argmin(a)
np.argmax(a)
np.argmin(A, axis=0)
np.argmin(A)
np.ptp(A, axis=0)
np.ptp(a)
np.dot(A, C)
A @ C
A.dot(C)
np.dot(a, b)
np.matmul(K, A)
np.inner(a, b)
np.outer(a, c)
np.einsum('ij,jk->ik', A, C)
np.einsum('ij,ij->i', A, B)
np.einsum('ij->j', A)
np.einsum('ii->i', K)
np.dot(a, A)
np.dot(A, c)
np.trace(K)
np.diag(K)
np.diag(a)
np.diagonal(K)
np.eye(3)
np.exp(a)
np.sqrt(p)
np.log(p)
np.abs(A)
np.sin(a) * np.cos(b)
np.tanh(a)
np.square(A)
np.power(a, 3)
np.sign(a)
np.floor(a * 3)
np.ceil(a * 3)
np.maximum(a, b)
np.minimum(A, 0)
np.clip(A, -.3, .4)
np.clip(a, b - .1, b + .1)
np.where(a > 0, a, b)
np.where(A > 0, A, 0)
np.hypot(a, b)
np.log10(p)
np.log1p(p)
np.expm1(a)
np.reshape(A, (-1,))
A.ravel()
A.reshape(-1, 1)
a.reshape(-1, 1)
a.reshape(1, -1)
a[:, None] - b[None, :]
A[:, np.newaxis, :] - B[np.newaxis, :, :]
((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2)
T.sum(axis=1)
np.sum(T, axis=(0, 2))
T.reshape(T.shape[0], -1)
np.transpose(T, (2, 0, 1))
np.swapaxes(T, 0, 2)
np.squeeze(O)
np.squeeze(R)
np.expand_dims(a, 0)
np.expand_dims(A, 1)
np.atleast_2d(a)
np.atleast_1d(x)
np.vstack((A, B))
np.vstack((A, R))
np.vstack((a, b))
np.hstack((A, B))
np.hstack((a, b))
np.concatenate((a, c))
np.concatenate([A, O], axis=1)
np.column_stack((a, b))
np.column_stack((A, a))
np.stack((a, b))
np.stack((a, b), axis=1)
np.append(a, c)
np.append(A, B, axis=0)
np.tile(a, (3, 1))
np.tile(a, 2)
np.tile(a, (2, 1)).T
np.repeat(a, 2)
np.repeat(R, 3, axis=0)
np.broadcast_to(c, A.shape)
np.zeros((2, 3))
np.ones(4)
np.full((2, 2), 3.5)
np.zeros_like(A)
np.ones_like(a) * x
np.full_like(a, x)
np.arange(5)
np.arange(1, A.shape[1] + 1)
np.arange(A.shape[1])
np.linspace(0, 1, 5)
A[0]
A[-1]
A[:, 0]
A[:, -1]
A[0, 0]
A[1:]
A[:-1]
A[:, 1:]
a[1:] - a[:-1]
a[::-1]
np.flip(a)
np.flip(A, 0)
np.flip(A)
np.take(A, [0, 1], axis=0)
np.take(a, 1)
np.diff(a)
np.diff(A, axis=0)
np.delete(a, 0)
np.delete(A, 1, axis=0)
np.split(np.hstack((a, b)), [a.shape[0]])[1]
np.triu(K)
np.tril(K, -1)
np.cumsum(a)
np.any(a > .5)
np.all(a > -.5)
(a > 0) & (b < 0)
(a > 0) | (b < 0)
~(a > 0)
np.logical_and(a > 0, b > 0)
np.sum(a > 0)
np.count_nonzero(a > 0)
a[a > 0]
a[a > 0].sum()
A[a > 0]
A[a > 0, 0]
np.where(a > 0)[0]
np.flatnonzero(a > 0)
np.nonzero(a > 0)[0]
a[np.argmin(b)]
A[np.argmin(a)]
A[np.argmin(a), :]
A[[0, 1]]
A[np.array([1, 0])]
a[np.arange(2)]
np.array([a, b])
np.array([[x, y], [y, x]])
np.array([x, y, 1.])
np.asarray(a)
a.copy()
a.astype(float)
np.isfinite(a)
np.add(a, b)
np.subtract.outer(a, c)
np.multiply(a, b)
np.add.reduce(A, axis=0)
np.multiply.outer(a, c)
np.array_equal(a, a)
np.array_equal(a, b)
np.allclose(a, a)
np.greater(a, b)
np.linalg.norm(a)
np.linalg.norm(A, axis=1)
np.linalg.inv(K)
np.linalg.solve(K, A)
np.linalg.solve(K, a)
np.linalg.cholesky(K)
np.linalg.solve(np.linalg.cholesky(K), A)
np.linalg.solve(np.linalg.cholesky(K).T, a)
np.linalg.inv(np.linalg.cholesky(K))
slin.cho_solve((np.linalg.cholesky(K), True), a)
slin.cho_solve(slin.cho_factor(K, lower=True), A)
slin.solve_triangular(np.linalg.cholesky(K), A, lower=True)
slin.solve_triangular(np.linalg.cholesky(K).T, A, lower=False)
np.log(np.diag(np.linalg.cholesky(K))).sum()
np.linalg.multi_dot([K, A, C])
norm.cdf(a)
norm.pdf(a)
norm.sf(a)
norm.cdf(a, x, 2.)
norm.logcdf(a)
norm.pdf(a, loc=b, scale=p)
dist.cdist(A, B)
dist.cdist(A, B, 'sqeuclidean')
np.vdot(A, B)
np.average(a)
np.pi * a
x / (y * y + 1)
max(x, y)
min(x, y)
abs(x)
x ** 3
x // 1
x % 1
np.sum([x, y])
np.max([x, y, 0])
np.fmax(a, 0)
np.nonzero(A[0] > 0)[0].size
np.unravel_index(np.argmin(A), A.shape)
np.shape(A)
A.shape[0] * A.shape[1]
A.size
np.size(a)
np.isclose(a, a + 1)
np.identity(2)
np.dot(A.T, A)
A.T @ K @ A
np.dot(np.dot(a, np.linalg.inv(K)), b)
'''
PROG = {
    'len': 'r = len(A) + len(a)',
    'float': 'r = float(x) + float(a[0])',
    'int': 'r = int(x * 10)',
    'ravel of a matrix, written': 'q = A * 1; w = q.ravel(); w[0] = 3; r = w',
    'reshape of a row': 'q = a * 1; w = q.reshape(1, -1); w[0, 1] = 3; r = q',
    'ravel of a column': 'q = O * 1; w = q.ravel(); w[1] = 3; r = q',
    'ravel of a view': 'q = A * 1; w = q[:, 0].ravel(); w[0] = w[0]; r = q',
    'squeeze is a view': 'q = O * 1; w = np.squeeze(q); w[1] = 3; r = q',
    'diag is not written': 'q = K * 1; w = np.diag(q) * 2; r = q + w',
    'transpose of a copy': 'q = A * 1; w = q.T.copy(); w[0] = 3; r = q',
    'sequence of writes': 'r = a.copy(); r[0] = b[0]; r[1] = r[0] + 1; r[0] = r[1] * 2',
    'swap rows': 'r = A.copy(); t = r[0].copy(); r[0] = r[1]; r[1] = t',
    'swap rows without a copy': 'r = A.copy(); t = r[0]; r[0] = r[1]; r[1] = t',
    'tuple swap': 'r = A.copy(); r[0], r[1] = r[1].copy(), r[0].copy()',
    'masked rows': 'r = A.copy(); r[a > 0, :] = 0',
    'masked column': 'r = A.copy(); r[a > 0, 0] = b[a > 0]',
    'where write': 'r = a.copy(); i = np.where(a > 0)[0]; r[i] = b[i]',
    'nested mask': 'r = A.copy(); t = r[:, 0]; t[t > 0] = 0',
    'default argument': 'r = np.sum(A, axis=0, keepdims=True) + A',
    'chained comparison': 'r = 1. if -.5 < x < .5 else 0.',
    'boolean operators': 'r = (x > 0 and y > 0) or x < y',
    'ternary': 'r = a if x > y else b',
    'list append': 'l = []\nfor i in range(A.shape[0]):\n    l.append(A[i, 0] * 2)\nr = np.array(l)',
    'list of rows': 'l = []\nfor i in range(3):\n    l.append(A[0] * i)\nr = np.vstack(l)',
    'early break': 'r = -1\nfor i in range(a.shape[0]):\n    if a[i] > 0:\n        r = i\n        break',
    'continue': 'r = np.zeros(a.shape[0])\nfor i in range(a.shape[0]):\n    if a[i] > 0:\n        continue\n    r[i] = 1',
    'reversed': 'r = 0\nfor i in reversed(range(3)):\n    r = r * 2 + i',
    'sorted': 'r = sorted([3, 1, 2])',
    'lambda': 'f = lambda u: u * 2; r = f(a)',
    'format': 'n = "%d" % 3; r = a',
    'dict': 'd = {"u": a, "v": b}; r = d["u"] + d["v"]',
    'star': 'r = np.add(*[a, b])',
    'sum of generator': 'r = sum(a[i] for i in range(a.shape[0]))',
    'max of generator': 'r = max(a[i] for i in range(2))',
    'augmented slice': 'r = A.copy(); r[:, 0] += a; r[0] *= 2',
    'floor division': 'r = 7 // 2 + 7 % 4',
    'integer array': 'r = np.array([1, 2, 3]) / 2',

    'assign column': 'r = A.copy(); r[:, 0] = a',
    'assign row': 'r = A.copy(); r[1] = c',
    'assign element': 'r = A.copy(); r[0, 1] = x',
    'assign mask': 'r = a.copy(); r[a > 0] = 0',
    'assign mask of another': 'r = a.copy(); r[b > 0] = b[b > 0]',
    'assign slice': 'r = a.copy(); r[1:] = b[:-1]',
    'overlapping slices': 'r = a.copy(); r[1:] = r[:-1]',
    'view': 'q = A.copy(); w = q[:, 0]; w += 1; r = q',
    'view of view': 'q = A.copy(); w = q[1:]; w[0] = 5; r = q',
    'transpose view': 'q = A.copy(); w = q.T; w[0] = a; r = q',
    'reshape view': 'q = a.copy(); w = q.reshape(-1, 1); w[0, 0] = 7; r = q',
    'mask copy': 'q = a.copy(); w = q[q > 0]; w += 1; r = q',
    'in place operator': 'q = a.copy(); w = q; w *= 2; r = q',
    'operator': 'q = a.copy(); w = q; w = w * 2; r = q',
    'fill': 'r = A.copy(); r.fill(x)',
    'fancy columns': 'r = A.copy(); r[:, [0, 1]] = B[:, [1, 0]]',
    'fancy rows': 'r = A.copy(); r[[1, 0]] = A[[0, 1]]',
    'out': 'r = np.zeros_like(a); np.add(a, b, out=r)',
    'copyto': 'r = np.zeros_like(A); np.copyto(r, B)',
    'ravel view': 'q = A.copy(); q.ravel()[0] = 3; r = q',
    'flatten copy': 'q = A.copy(); q.flatten()[0] = 3; r = q',
    'asarray aliases': 'q = a.copy(); np.asarray(q)[0] = 3; r = q',
    'array copies': 'q = a.copy(); np.array(q)[0] = 3; r = q',
    'atleast_2d view': 'q = a.copy(); np.atleast_2d(q)[0, 0] = 3; r = q',
    'loop over rows': 'r = np.zeros(A.shape[0])\nfor i in range(A.shape[0]):\n    r[i] = A[i].sum() * a[i]',
    'loop with carry': 's = 0\nfor i in range(A.shape[0]):\n    s = s + a[i] * b[i]\nr = s',
    'nested loops': 'r = np.zeros(A.shape)\nfor i in range(A.shape[0]):\n    for j in range(A.shape[1]):\n        r[i, j] = A[i, j] + c[j]',
    'comprehension': 'r = np.array([A[i].max() for i in range(A.shape[0])])',
    'enumerate': 'r = a.copy()\nfor i, v in enumerate(b):\n    r[i] += v',
    'zip': 'r = 0\nfor u, v in zip(a, b):\n    r += u * v',
    'iterate rows': 'r = 0\nfor row in A:\n    r = r + row[0]',
    'running minimum': 'r = a[0]\nfor i in range(1, a.shape[0]):\n    if a[i] < r:\n        r = a[i]',
    'while': 'i = 0\nr = 0\nwhile i < 4:\n    r += a[0] * i\n    i += 1',
}


def draw(rng):
    n, m, d = [int(rng.randint(2, 5)) for _ in range(3)]
    dim = {'n': n, 'm': m, 'd': d, '1': 1}
    A = {}
    for k, s in SHAPES.items():
        v = numpy.round(rng.uniform(-1, 1, [dim[q] for q in s]), 2)
        if rng.rand() < .3:
            v = numpy.round(v, 0)           # ties and zeros
        if k == 'p':
            v = numpy.abs(v) + .1
        if k == 'K':
            v = v @ v.T + numpy.eye(n)
        A[k] = v if v.ndim else float(v)
    return {'n': n, 'm': m, 'd': d}, A


def holds(ev, b):
    try:
        return ev._b(b, {})
    except Unknown:
        return True


def flat(r):
    """nested results as a list of (shape, values)"""
    if isinstance(r, (tuple, list)):
        return [x for q in r for x in flat(q)]
    if isinstance(r, vc.SList):
        raise Unsupported('list result')
    return [r]


def value(ev, r):
    if isinstance(r, bool) or isinstance(r, (int, float)):
        return numpy.array(float(r))
    if hasattr(r, '_shape'):
        sh = [ev._i(s, {}) for s in r._shape]
        f = r.nsnap()
        out = numpy.zeros(sh)
        for ix in numpy.ndindex(*sh):
            v = f(tuple(P(i) for i in ix))
            out[ix] = ev._b(v, {}) if isinstance(v, ir.Bool) else ev._p(v, {})
        return out
    if isinstance(r, ir.Bool):
        return numpy.array(float(ev._b(r, {})))
    if hasattr(r, 'b') and isinstance(r.b, ir.Bool):
        return numpy.array(float(ev._b(r.b, {})))
    return numpy.array(ev._p(to_poly(r), {}))


import ir


def one(name, src, progs, n_draws=12, seed=0):
    """-> 'ok' | 'unsupported: ..' | 'WRONG ..'"""
    cap = []

    def scen(v):
        sz = {k: v.dim(k, 2, 4) for k in 'nmd'}
        env = dict(SYM)
        for k, s in SHAPES.items():
            env[k] = v.array(k, *[sz[q] if q != '1' else 1 for q in s]) if s else v.real(k)
        i, j = [P(uvar('h')) for _ in range(2)]
        hs = [mk_sym(h) for h in (i, j)]
        # what is known of the arguments: p positive, K symmetric positive definite
        q = ir.uvar('q', 'I')
        v.c.fact(FORALL([q], OR(LT(P(q), ZERO), LE(to_poly(sz['n']), P(q)), LT(ZERO, app('p', [P(q)])))))
        K = env['K']
        env['K'] = A_sym(v, sz['n'])
        out = run_src(src, env, progs, name)
        if cap is not None:
            cap.append((list(v.c.pc) + list(v.c.facts), out))
        v.ok('end') if hasattr(v, 'ok') else None
    ver = explore.Verifier('conform')
    try:
        ver.run(scen)
    except Unsupported as e:
        return 'unsupported: %s' % str(e)[:80], 0
    rng = numpy.random.RandomState(seed)
    done = 0
    for _ in range(n_draws):
        dims, arr = draw(rng)
        renv = dict(REAL)
        renv.update({k: (x.copy() if hasattr(x, 'copy') else x) for k, x in arr.items()})
        try:
            want = run_src(src, renv, False, name)
        except Exception as e:
            want = e
        ev = Ev(dict(dims, **{k: x for k, x in arr.items() if not SHAPES[k]}), {k: x for k, x in arr.items() if SHAPES[k]})
        ev.arrs['K*'] = arr['K']
        hit = 0
        for hyp, out in cap:
            if not all(holds(ev, b) for b in hyp):
                continue
            try:
                got = [value(ev, r) for r in flat(out)]
            except Unknown as e:
                return ('summarised: the result is described by facts' if '$' in str(e) else 'not evaluable: %s' % str(e)[:60]), done
            if isinstance(want, Exception):
                return 'WRONG: library raises %r' % want, done
            w = [numpy.asarray(r, dtype=float) for r in flat(want)]
            hit += 1
            if len(w) != len(got) or any(x.shape != y.shape for x, y in zip(w, got)):
                return 'WRONG shape: %s %s' % ([x.shape for x in got], [x.shape for x in w]), done
            if not all(numpy.allclose(x, y, atol=1e-8) for x, y in zip(w, got)):
                return 'WRONG value: %s %s for %s' % (got, w, arr), done
        if hit:
            done += 1
        elif not isinstance(want, Exception):
            return 'WRONG: no path of the verifier covers %s' % dims, done
    return 'ok', done


def mk_sym(p):
    return SNum(p)


def A_sym(v, n):
    """a symmetric positive definite matrix K* (the value comes from the draw)"""
    K = newarr(lambda ix: app('K*', sorted(ix, key=lambda z: z.id)), [to_poly(n), to_poly(n)], tag='num')
    return K


def run_src(src, env, progs, name):
    e = dict(env)
    if '\n' in src or ';' in src or src.startswith('r ='):
        if progs:
            f = tempfile_module(src, name, progs)
            r = f(**{k: e[k] for k in list(SHAPES)})
            return r
        exec(src, e)
        return e['r']
    return eval(src, e)


_mods = {}


def tempfile_module(src, name, d):
    """the program as a function in a module, extracted like the code of /repo"""
    if name not in _mods:
        nm = 'prog_%d' % len(_mods)
        os.makedirs(os.path.join(d, 'toyprog'), exist_ok=True)
        body = '\n'.join('    ' + l for l in src.replace('; ', '\n').split('\n'))
        with open(os.path.join(d, nm + '.py'), 'w') as o:
            o.write('import numpy as np\n\n\ndef f(%s):\n%s\n    return r\n' % (', '.join(SHAPES), body))
        _mods[name] = nm
    return getattr(loader.Registry(src=d).load(_mods[name]), 'f')


def main():
    import tempfile
    bad = uns = n = 0
    with tempfile.TemporaryDirectory() as d:
        todo = [(s, s, None) for s in EXPR.strip().splitlines()] + [(k, s, d) for k, s in PROG.items()]
        for nm, src, pr in todo:
            if len(sys.argv) > 1 and sys.argv[1] not in nm:
                continue
            try:
                r, k = one(nm, src, pr)
            except Exception as e:
                import traceback
                r, k = 'WRONG: %r' % e, 0
                if len(sys.argv) > 1:
                    traceback.print_exc()
            n += 1
            bad += r.startswith('WRONG')
            uns += r.startswith(('uns', 'not', 'summ'))
            if r.startswith('WRONG') or len(sys.argv) > 1:
                print('%-40s %s (%d draws)' % (nm[:40], r[:400], k))
    print('%d library operations compared with the installed versions, %d outside the model, %d wrong' % (n, uns, bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
