"""check.py ID : decide one property on /repo's current tree.

1. Every contract of the property is discharged by the verifier in engine/ on the functions' current source.
2. The contracts are replayed on the real functions (conformance of the trusted models, and the search for a
   failing input when an obligation does not discharge).
Exit 0: everything discharged and no replay disagrees.  Exit 1: VIOLATION line."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_PY = '/opt/venv/bin/python'
VT = 'python3-vt'
pid = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    tier = 'thorough'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
quick = tier != 'thorough'
t0 = time.time()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
EV = os.path.join(HERE, 'evidence')
os.makedirs(EV, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='sgcheck_')


def replay(seed, budget, tag):
    out = os.path.join(tmp, 'replay_%s.json' % tag)
    p = subprocess.Popen([REPO_PY, os.path.join(HERE, 'replay', 'run.py'), pid, '--seed', str(seed), '--tier', tier,
                          '--budget', str(budget), '--out', out], env=ENV, cwd=tmp,
                         stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'))
    return p, out, budget


def collect(h):
    p, out, budget = h
    try:
        p.wait(timeout=budget * 5 + 120)
        e = open(out + '.err', 'rb').read()
    except subprocess.TimeoutExpired:
        p.kill()
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'violation': {'what': 'the real code does not return (replay of %s '
                'did not finish in time)' % pid}, 'error': 'timeout', 'known': []}
    try:
        return json.load(open(out))
    except Exception:  # noqa: BLE001
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'violation': None, 'known': [],
                'error': 'replay gave no result, exit %s: %s' % (p.returncode, e.decode(errors='replace')[-2000:])}


def prove(n, deadline, h):
    """the sharded proof; once the replay has a failing input the workers only get a short grace"""
    ps = []
    for k in range(n):
        out = os.path.join(tmp, 'prove_%d.json' % k)
        ps.append((subprocess.Popen([VT, os.path.join(HERE, 'prove.py'), pid, str(k), str(n), str(deadline), out], env=ENV,
                                    cwd=tmp, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb')), out))
    res = []
    end = time.time() + deadline + 90
    while any(p.poll() is None for p, _ in ps) and time.time() < end and h[0].poll() is None:
        time.sleep(0.2)
    if h[0].poll() is not None:
        try:
            if json.load(open(h[1])).get('violation'):
                end = min(end, time.time() + 30)
        except Exception:  # noqa: BLE001
            pass
    for p, out in ps:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        e = open(out + '.err', 'rb').read()
        try:
            res.append(json.load(open(out)))
        except Exception:  # noqa: BLE001
            res.append({'obls': [['worker/answered', False, 'verifier gave no answer (exit %s): %s' % (
                p.returncode, e.decode(errors='replace')[-1500:])]], 'negs': 0, 'vacuous': [], 'funcs': [], 'models': [],
                'calls': [], 'unsupported': [], 'known': [], 'assumed': [], 'bounded': [], 'retired': [], 'stats': {},
                'timing': [], 'wall': 0, 'error': 'no result', 'units': 0})
    return res


def cleanup():
    for root, ds, fs in os.walk(tmp, topdown=False):
        for f in fs:
            os.unlink(os.path.join(root, f))
        for d in ds:
            q = os.path.join(root, d)
            os.unlink(q) if os.path.islink(q) else os.rmdir(q)
    os.rmdir(tmp)


def listed():
    out = {}
    for ln in open(os.path.join(HERE, 'known-findings.txt')):
        if ln.startswith('finding: '):
            d = dict(x.split('=', 1) for x in ln.split()[1:3])
            out[d['id']] = (d['property'], ln.split(None, 3)[3].strip())
    return out


info = json.load(open(os.path.join(HERE, 'contracts', 'info.json')))
meta = info['properties'].get(pid, {})
has_proof = os.path.exists(os.path.join(HERE, 'contracts', pid + '.py'))
budget = meta.get('replay_quick', 6 if has_proof else 30) if quick else (90 if has_proof else 300)
h = replay(seed, budget, 'a')
workers = prove(7, 240 if quick else 1500, h) if has_proof else []
rep = collect(h)

obls = [o for w in workers for o in w['obls']]
errs = [w['error'] for w in workers if w['error']]
vac = [v for w in workers for v in w['vacuous']]
failed = [o for o in obls if not o[1]]
known = sorted({k for w in workers for k in w['known']} | set(rep.get('known', [])))
lst = listed()
unlisted = [k for k in known if k not in lst or lst[k][0] != pid]
if has_proof and not obls:
    failed.append(['no obligation generated', False, 'zero obligations'])
for e in errs:
    failed.append(['contracts of %s evaluated' % pid, False, e])
for v in vac:
    failed.append(['vacuity: ' + v, False, v])
for u in unlisted:
    failed.append(['unlisted finding ' + u, False, u])

reps = [rep]
if failed and not rep.get('violation'):
    # search harder for a failing input
    hs = [replay(seed * 1000 + i, 25 if quick else 120, 'b%d' % i) for i in range(6)]
    for x in hs:
        r = collect(x)
        reps.append(r)
found = next((r for r in reps if r.get('violation')), None)
rerr = next((r for r in reps if r.get('error') and not r.get('violation')), None)

viol = None
path = os.path.join(EV, 'replay_%s.json' % pid)
if found:
    viol = 'VIOLATION property=%s replay=%s' % (pid, path)
    json.dump({'property': pid, 'failing_input': found['violation'], 'seed': found.get('seed'),
               'reproduce': 'python replay/run.py %s --seed %s' % (pid, found.get('seed')),
               'failed_obligations': [o[0] for o in failed][:40],
               'verifier_output': [o[2] for o in failed][:3]}, open(path, 'w'), indent=1)
elif failed or rerr:
    viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)
    json.dump({'property': pid, 'failed_obligations': [o[0] for o in failed][:60],
               'verifier_output': [{'obligation': o[0], 'output': o[2]} for o in failed[:12]],
               'replay_error': rerr['error'] if rerr else None,
               'searched': [{'seed': r.get('seed'), 'evaluations': r.get('evaluations')} for r in reps]}, open(path, 'w'), indent=1)

stats = {}
for w in workers:
    for k, v in w['stats'].items():
        stats[k] = round(stats.get(k, 0) + v, 3)
bounded = sorted({str(b) for w in workers for b in w['bounded']} | set(meta.get('bounded', [])))
timing = sorted((t for w in workers for t in w['timing']), key=lambda t: -t[1])[:8]
cov = {
    'obligations': len(obls), 'discharged': sum(1 for o in obls if o[1]),
    'checker_cmd': 'python3-vt check.py %s' % pid,
    'trusted_base': info['trusted_base'] + sorted({'model of ' + m for w in workers for m in w['models']}) + meta.get('trusted', []),
    'functions_under_contract': sorted({f for w in workers for f in w['funcs']}),
    'contracts': sorted({c for w in workers for c in w['calls']}),
    'helper_contracts_retired': sorted({c for w in workers for c in w['retired']}),
    'back_ends': 'term normaliser + polynomial identity (engine/terms.py, prover.py) with z3 for arithmetic side conditions',
    'z3': stats, 'slowest_contracts': timing,
    'vacuity_probes': {'wrong_postconditions_tried': sum(w['negs'] for w in workers), 'proved': len(vac)},
    'evaluations': sum(r.get('evaluations', 0) for r in reps), 'distinct_nontrivial': sum(r.get('distinct', 0) for r in reps),
    'rule': 'structured random inputs to the real functions, compared with the property\'s oracle; distinct inputs counted by digest',
    'samples': (rep.get('samples') or [])[:3],
    'bounded': bounded, 'known_findings_met': known,
    'sample_obligations': [o[0] for o in obls[:6]],
}
ev = {'property': pid, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': meta.get('level', 'proof' if has_proof else 'exploration'), 'coverage': cov,
      'assumptions': info['assumptions'] + meta.get('assumptions', []) + sorted({a for w in workers for a in w['assumed']}) +
      (rep.get('assumptions') or []),
      'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
if not obls and ev['level'] == 'proof':
    ev['level'] = 'other'
    cov['explanation'] = 'no obligation was generated on this tree'
if not has_proof:
    for k in ('obligations', 'discharged', 'trusted_base', 'functions_under_contract', 'contracts', 'helper_contracts_retired', 'z3', 'back_ends',
              'slowest_contracts', 'vacuity_probes', 'sample_obligations'):
        cov.pop(k)
    cov['bounded'] = ['whole property: contract evaluated at run time on generated inputs, %d s' % budget]
json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1, default=str)
cleanup()
for k in known:
    if k not in unlisted:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, lst[k][1]))
print('%s: %d obligations, %d discharged, %d replayed inputs, %.1f s' % (pid, len(obls), sum(1 for o in obls if o[1]),
                                                                       cov['evaluations'], ev['wall_s']))
if viol:
    for o in failed[:5]:
        print('  failed obligation: %s' % o[0])
    if found:
        print('  failing input: %s' % str(found['violation'].get('what'))[:300])
    print(viol)
    sys.exit(1)
sys.exit(0)
