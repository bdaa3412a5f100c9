"""C02  nested plans"""
from base import *
from C01 import MM, space
import prover


def witness(v, what, hi, lo, nh, nl, d, cands):
    """exists an injective index map w: [0, nh) -> [0, nl) with hi[i] = lo[w(i)]; `cands` are the witnesses tried
    (index i itself, every draw without replacement that was made)"""
    def goal(w):
        return lambda i, j: And(w(i) >= 0, w(i) < nl, eqn(E(hi, i, j), E(lo, w(i), j)))

    def inj(w):
        return lambda i, k: Imp(eqn(w(i), w(k)), eqn(i, k))
    best = None
    for w in cands:
        q, r = uvar('q', 'I', 0, to_poly(nh)), uvar('q', 'I', 0, to_poly(d))
        rng = [AND(mkb('lt', (P(x) - to_poly(s),)), NOT(mkb('lt', (P(x),)))) for x, s in ((q, nh), (r, d))]
        try:
            if prover.entails(v.c.hyps() + rng, goal(w)(SNum(P(q)), SNum(P(r))), v.ver.timeout)[0]:
                best = w
                break
        except Unsupported:
            continue
    best = best or cands[0]
    v.ensure_forall('%s: every point is a point of the next lower fidelity' % what, [nh, d], goal(best))
    v.ensure_forall('%s: no lower-fidelity point is used twice' % what, [nh, nh], inj(best))


def mk(cls, nf, **kw):
    def s(v):
        R = setup(v)
        ds, lo, hi, d = space(v, 'array')
        ns = [v.dim('n0')]
        for k in range(1, nf):
            ns.append(v.dim('n%d' % k))
            v.assume(ns[k - 1] <= ns[k])
        kk = {k: (v.int('skip', 0) if x == 'sym' else x) for k, x in kw.items()}
        seed = v.int('seed', 0)
        C = getattr(R.load(MM), cls)
        r = list(C(design_space=ds, num_fidelity=nf, nested=True, **kk).get_samples(num_samples=vc.L(list(ns)), seed=seed))
        cands = [lambda i: i] + [lambda i, x=x: E(x, i) for x, n in v.c.ghost['choice']]
        for k in range(nf - 1):
            v.ensure_shape('fidelity %d: shape' % k, r[k], (ns[k], d))
            witness(v, 'fidelity %d' % k, r[k], r[k + 1], ns[k], ns[k + 1], d, cands)
        flat = list(C(design_space=ds, num_fidelity=nf, nested=False, **kk).get_samples(num_samples=vc.L(list(ns)), seed=seed))
        v.ensure_eq('the lowest fidelity is the plan of a non-nested request', r[-1], flat[-1])
    return s


SCENARIOS = [('%s, %d fidelities' % (c, k), mk(c, k)) for c in ('MFLatinHyperCube', 'MFSobolSequence') for k in (2, 3, 4)]
SCENARIOS += [('MFSobolSequence, any skip', mk('MFSobolSequence', 3, num_skip='sym'))]
ASSUMPTIONS = ['numpy choice(replace=False) and permutation are injective', 'number of fidelities 2-4 in the proofs (any counts and dimension)']
