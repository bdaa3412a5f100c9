#!/usr/bin/env python3-vt
"""Decides one property:  python3-vt run_check.py C05 [--tier quick|thorough]

1. extracts /repo/src/mfpml, generates and discharges the obligations of every
   scenario in checks/<id>.py (engine/, back end z3);
2. runs the runtime form of the same contracts on the real code
   (harness/<id>.py) to look for a failing input;
3. prints KNOWN-FINDING / VIOLATION lines, writes evidence/<id>.json."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
PY = os.environ.get('NPVC_PY', '/opt/venv/bin/python')
SRC = os.environ.get('NPVC_SRC', '/repo/src')
sys.setrecursionlimit(20000)


def prove_one(prop, idx, tier, deadline, out):
    """worker: one scenario"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    res = {'status': 'error', 'obs': [], 'msg': ''}
    try:
        import ir
        import explore
        import loader
        import prover
        mod = importlib.import_module(prop)
        sc = mod.SCENARIOS[idx]
        opts = dict({'dtypes': getattr(mod, 'DTYPES', False)}, **(sc[2] if len(sc) > 2 else {}))
        ver = explore.Verifier('%s/%s' % (prop, sc[0]), deadline=deadline, **opts)
        regs = []
        orig = loader.Registry.__init__

        def init(self, *a, **k):
            orig(self, *a, **k)
            regs.append(self)
        loader.Registry.__init__ = init
        called = set()
        mon = sys.monitoring
        mon.use_tool_id(3, 'npvc')

        def started(code, off):
            if code.co_filename.startswith('npvc:') and not code.co_name.startswith('<') and code.co_flags & 1:
                called.add(code.co_filename.rsplit('/mfpml/', 1)[-1] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, started)
        mon.set_events(3, mon.events.PY_START)
        try:
            ver.run(sc[1])
            res['status'] = 'done' if ver.stats.get('covers') and ver.obs else 'vacuous'
        except ir.Unsupported as e:
            res['status'] = 'timeout' if isinstance(e, explore.Timeout) else 'unsupported'
            res['msg'] = '%s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc()[-1500:]
        except RecursionError as e:
            res['status'] = 'unsupported'
            res['msg'] = 'recursion'
        except MemoryError:
            res['status'] = 'unsupported'
            res['msg'] = 'memory limit'
        except Exception as e:
            res['status'] = 'raise'
            res['msg'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
        for o in ver.obs:
            d = {'name': o.name, 'status': o.status, 'how': str(o.how)[:300], 'path': str(o.dec)[:400]}
            if o.status != 'ok' and o.detail is not None:
                try:
                    d['goal'] = ir.show(o.detail[0])[:3000]
                    d['hyps'] = [ir.show(x)[:400] for x in o.detail[1]][:40]
                except Exception as e:
                    d['goal'] = 'unprintable %s' % e
            res['obs'].append(d)
        fns = set()
        for r in regs:
            fns |= set(r.hashes.items())
        res['sources'] = sorted(fns)
        res['functions'] = sorted(called)
        res['stats'] = dict(ver.stats, paths=ver.paths)
        res['loopnotes'] = {str(k): str(v)[:200] for k, v in ver.loopnotes.items()}
        res['solver'] = {k: v for k, v in prover.STATS.items() if isinstance(v, (int, float))}
    except BaseException as e:
        res['status'] = 'error'
        res['msg'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    json.dump(res, open(out, 'w'))


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verbose = '-v' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='npvc_%s_' % prop)
    try:
        code = run(prop, tier, seed, tmp, t0, verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, tmp, t0, verbose):
    quick = tier == 'quick'
    sys.dont_write_bytecode = True
    mod = importlib.import_module(prop)
    scen = getattr(mod, 'SCENARIOS', [])
    pbudget = 240 if quick else 1500
    hbudget = 150 if quick else 900
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0', NPVC_SRC=SRC, MPLBACKEND='Agg',
               PYTHONPATH=SRC)
    # ---- runtime contracts (failing-input search)
    hw = []
    hfile = os.path.join(ROOT, 'harness', prop + '.py')
    nh = 3 if quick else 4
    if os.path.exists(hfile):
        for k in range(nh):
            out = os.path.join(tmp, 'h%d.json' % k)
            log = open(os.path.join(tmp, 'h%d.log' % k), 'w')
            p = subprocess.Popen([PY, os.path.join(ROOT, 'harness', 'runner.py'), prop, tier, str(seed), str(hbudget),
                                  str(k), str(nh), out], env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp)
            hw.append((p, out, log.name))
    # ---- proofs
    ctx = mp.get_context('fork')
    pend = list(range(len(scen)))
    runn = {}
    results = {}
    deadline = time.time() + pbudget
    while pend or runn:
        while pend and len(runn) < 6:
            i = pend.pop(0)
            out = os.path.join(tmp, 'p%d.json' % i)
            dl = min(deadline, time.time() + (110 if quick else 900))
            p = ctx.Process(target=prove_one, args=(prop, i, tier, dl, out))
            p.start()
            runn[i] = (p, out, dl)
        time.sleep(0.05)
        for i, (p, out, dl) in list(runn.items()):
            if not p.is_alive() or time.time() > dl + 30:
                if p.is_alive():
                    p.kill()
                p.join()
                try:
                    results[i] = json.load(open(out))
                except Exception:
                    results[i] = {'status': 'timeout', 'obs': [], 'msg': 'killed / no result', 'wall': 0, 'stats': {},
                                  'solver': {}}
                del runn[i]
        if time.time() > deadline + 40:
            pend = []
    # ---- collect harness
    hres = []
    hmsg = []
    for p, out, log in hw:
        try:
            p.wait(timeout=max(5, t0 + hbudget + 120 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            hmsg.append('runtime worker killed')
        try:
            hres.append(json.load(open(out)))
        except Exception:
            hmsg.append('runtime worker gave no result: ' + open(log).read()[-2000:])
    hf = [f for r in hres for f in r['failures']]
    known = load_known(prop)
    lines, violations = [], []
    seen = set()
    for f in hf:
        if f.get('finding') and f['finding'] in known:
            if f['finding'] not in seen:
                seen.add(f['finding'])
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[f['finding']]))
        else:
            violations.append(f)
    for k, v in known.items():
        if k not in seen:
            # a listed finding whose input was not reached on this run
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, v)) if False else None
    obs = {}
    failed = []
    notproved = []
    nobs = ndis = 0
    for i, r in sorted(results.items()):
        nm = scen[i][0]
        if r['status'] != 'done':
            notproved.append({'scenario': nm, 'status': r['status'], 'msg': r['msg'][:1500]})
        for o in r['obs']:
            nobs += 1
            if o['status'] == 'ok':
                ndis += 1
            else:
                failed.append(dict(o, scenario=nm))
    # an obligation that fails although the scenario is in reach: violation
    rdir = os.path.join(ROOT, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    code = 0
    broken = [f for f in hmsg]
    if violations:
        v = violations[0]
        json.dump({'property': prop, 'tier': tier, 'case': v['case'], 'seed': v['seed'], 'what': v['what'],
                   'values': v['values'], 'all': violations[:20], 'failed_obligations': failed[:10],
                   'replay_cmd': 'PYTHONPATH=/repo/src %s %s --replay %s' % (PY, os.path.join(ROOT, 'harness/runner.py'),
                                                                             rpath)},
                  open(rpath, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, rpath))
        code = 1
    elif failed:
        json.dump({'property': prop, 'tier': tier, 'obligation': failed[0]['name'], 'scenario': failed[0]['scenario'],
                   'failed_obligations': failed[:20], 'verifier_output': failed[0]}, open(rpath, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
        code = 1
    elif hw and not hres:
        # the real code cannot even be imported / run
        json.dump({'property': prop, 'tier': tier, 'what': 'the code cannot be run', 'log': hmsg}, open(rpath, 'w'))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rpath))
        code = 1
    evals = sum(r['evals'] for r in hres)
    distinct = len(set(x for r in hres for x in r['distinct']))
    samples = [s for r in hres for s in r['samples']][:4]
    level = getattr(mod, 'LEVEL', 'proof')
    solver_s = round(sum(r.get('solver', {}).get('z3_time', 0) for r in results.values()), 2)
    bounded = [dict(n, stands_in='runtime contracts, bounded: ' + (hres[0]['bound'] if hres else ''))
               for n in notproved]
    cov = {
        'obligations': nobs, 'discharged': ndis,
        'checker_cmd': 'python3-vt run_check.py %s --tier %s' % (prop, tier),
        'trusted_base': list(getattr(mod, 'TRUSTED', [])) + COMMON_TRUSTED,
        'functions_under_contract': sorted({f for r in results.values() for f in r.get('functions', [])}),
        'scenarios': [{'name': scen[i][0], 'status': r['status'], 'obligations': len(r['obs']),
                       'paths': r.get('stats', {}).get('paths'), 'loops_by_induction': r.get('stats', {}).get('loops'),
                       'wall_s': round(r.get('wall', 0), 1), 'solver': r.get('solver')}
                      for i, r in sorted(results.items())],
        'obligation_names': sorted({scen[i][0] + ': ' + o['name'] for i, r in results.items() for o in r['obs']})[:400],
        'back_end': 'z3 (python bindings) + normalisation in engine/ir.py',
        'solver_s': solver_s,
        'sources_sha256': sorted({tuple(x) for r in results.values() for x in r.get('sources', [])}),
        'not_proved_bounded_only': bounded + list(getattr(mod, 'BOUNDED', [])),
        'runtime_contract_clauses_checked': sum(r['checks'] for r in hres),
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': (hres[0]['rule'] if hres else ''), 'samples': samples,
        'explanation': getattr(mod, 'EXPLANATION', ''),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(failed)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s %s: obligations %d discharged %d; scenarios not proved: %s; runtime cases %d clauses %d; %.1fs' % (
        prop, tier, nobs, ndis, [n['scenario'] + ' (' + n['status'] + ')' for n in notproved] or 'none', evals,
        cov['runtime_contract_clauses_checked'], time.time() - t0))
    if verbose:
        for n in notproved:
            print('--', n['scenario'], n['status'], n['msg'])
        for f in failed[:8]:
            print('-- FAILED', f['scenario'], f['name'], f['how'], f.get('path'))
            print('     goal:', f.get('goal', '')[:1500])
            for h in f.get('hyps', [])[:25]:
                print('        hyp', h)
        for f in hf[:6]:
            print('-- RUNTIME', json.dumps(f, indent=1)[:2500])
        for m in hmsg:
            print('-- HARNESS', m)
        for i, r in sorted(results.items()):
            print('--', scen[i][0], r['status'], len(r['obs']), r.get('stats'), r.get('solver'), round(r.get('wall', 0), 1))
            if '-vv' in sys.argv:
                for k, v in r.get('loopnotes', {}).items():
                    print('      loop', k, v)
    return code


def load_known(prop):
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                parts = dict(x.split('=', 1) for x in l.split()[1:3])
                if parts.get('property') == prop:
                    out[parts['key']] = l.split(None, 3)[3].strip()
    return out


COMMON_TRUSTED = [
    'engine/ (extraction, symbolic execution, normalisation, loop induction)',
    'engine/np_shim.py: contracts assumed for numpy, scipy and the Python standard library',
    'z3',
]
COMMON_ASSUMPTIONS = [
    'machine arithmetic is treated as exact real arithmetic (the runtime contracts run on IEEE doubles)',
    'the extraction drops annotations, docstrings, printing and clock readings (engine/loader.py lists every rule)',
]

if __name__ == '__main__':
    main()
