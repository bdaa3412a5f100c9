"""Runs the runtime form of a property's contracts against the real code.

    /opt/venv/bin/python -m  runner.py <property> <tier> <seed> <budget_s> <worker> <workers> <out.json>
    /opt/venv/bin/python runner.py --replay <replay.json>

A harness module has CASES = [(name, function(h, rng), quick_count, thorough_count)].
Every case is a function of its seed only, so a failing case is replayed by name
and seed.  `h.check(cond, what, **values)` states one contract clause."""
import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.environ.get('NPVC_SRC', '/repo/src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa


class Skip(BaseException):
    """the case does not meet the contract's precondition"""


class H:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.failures = []
        self.evals = 0
        self.checks = 0
        self.distinct = set()
        self.samples = []
        self.cur = None
        self.skipped = 0

    def check(self, cond, what, /, finding=None, **values):
        self.checks += 1
        if bool(cond):
            return True
        self.fail(what, finding, **values)
        return False

    def fail(self, what, finding=None, **values):
        if sum(1 for f in self.failures if f['what'] == what) >= 3:
            return
        self.failures.append({'what': what, 'finding': finding, 'case': self.cur[0], 'seed': self.cur[1],
                              'values': {k: short(v) for k, v in values.items()}})

    def nontrivial(self, key):
        self.distinct.add(repr(key)[:200])

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({'case': self.cur[0], 'seed': self.cur[1], **{k: short(v) for k, v in kw.items()}})

    def skip(self, why=''):
        raise Skip(why)


def short(v):
    if isinstance(v, np.ndarray):
        return {'shape': list(v.shape), 'data': np.array2string(v, precision=17, threshold=60, max_line_width=200)}
    r = repr(v)
    return r if len(r) < 400 else r[:400] + '...'


def one(h, mod, name, fn, seed):
    h.cur = (name, seed)
    rng = np.random.RandomState(seed)
    np.random.seed((seed * 7919 + 13) % (2 ** 32))
    h.evals += 1
    buf = io.StringIO()
    n0 = len(h.failures)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(buf):
            warnings.simplefilter('ignore')
            fn(h, rng)
    except Skip:
        h.skipped += 1
    except Exception as e:
        tb = traceback.format_exc()
        inrepo = [l for l in tb.splitlines() if 'mfpml/' in l]
        h.fail('exception %s' % type(e).__name__, None, traceback=tb[-3000:], in_code=inrepo[-1:] or 'harness')
    return len(h.failures) > n0


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        mod = importlib.import_module(r['property'])
        h = H(r['property'], r.get('tier', 'quick'))
        fn = {c[0]: c[1] for c in mod.CASES}[r['case']]
        one(h, mod, r['case'], fn, r['seed'])
        print(json.dumps(h.failures, indent=1))
        sys.exit(1 if h.failures else 0)
    prop, tier, seed, budget, wk, wks, out = sys.argv[1:8]
    seed, budget, wk, wks = int(seed), float(budget), int(wk), int(wks)
    t0 = time.time()
    mod = importlib.import_module(prop)
    h = H(prop, tier)
    done = True
    cases = [(c[0], c[1], c[2] if tier == 'quick' else c[3]) for c in mod.CASES]
    todo = []
    for ci, (nm, fn, n) in enumerate(cases):
        for i in range(n):
            todo.append((i / max(n, 1), ci, i))
    todo.sort()
    todo = todo[wk::wks]
    for _, ci, i in todo:
        if time.time() - t0 > budget:
            done = False
            break
        if len(h.failures) >= 12:
            break
        nm, fn, n = cases[ci]
        s = (seed * 1000003 + ci * 10007 + i * 101 + (hash_name(nm) % 997)) % (2 ** 31 - 1)
        one(h, mod, nm, fn, s)
    json.dump({'failures': h.failures, 'evals': h.evals, 'checks': h.checks, 'skipped': h.skipped,
               'distinct': sorted(h.distinct), 'samples': h.samples, 'complete': done,
               'rule': getattr(mod, 'RULE', ''), 'bound': getattr(mod, 'BOUND', ''),
               'planned': len(todo)}, open(out, 'w'))


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


if __name__ == '__main__':
    main()
