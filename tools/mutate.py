"""mutate.py SPEC.py [label...]: development helper. SPEC defines MUTS = [(label, property ids, file, old, new), ...];
each is applied to a scratch copy of the package and judged by the contract and by the replay of each property."""
import os, runpy, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
CODE = '''
import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
import importlib
from contracts.base import C
from engine import prover
pid=sys.argv[1]
prover.DEADLINE[0]=time.time()+240
c=C(pid); t=time.time()
importlib.import_module('contracts.'+pid).run(c)
bad=[o for o in c.obls if not o[1]]
uns=sum('nsupported' in o[0]+o[2] for o in bad)
print('%d/%d failed (%d unsupported) %.0fs'%(len(bad),len(c.obls),uns,time.time()-t), '|', ('%s: %s'%(bad[0][0],bad[0][2][:160])).replace(chr(10),' ') if bad else '')
'''
muts = runpy.run_path(sys.argv[1])['MUTS']
want = sys.argv[2:]


def go(m):
    label, ids, fn, old, new = m[:5]
    d = tempfile.mkdtemp(prefix='sgmut_')
    out = []
    try:
        shutil.copytree('/repo/shipgrav', d + '/shipgrav')
        p = d + '/shipgrav/' + fn
        s = open(p).read()
        if s.count(old) < 1:
            return '%s: OLD TEXT NOT FOUND' % label
        s = s.replace(old, new) if len(m) > 5 and m[5] == 'all' else s.replace(old, new, 1)
        open(p, 'w').write(s)
        env = dict(os.environ, SHIPGRAV_REPO=d, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        for i in ids.split():
            if os.path.exists('/verif/contracts/%s.py' % i):
                r = subprocess.run(['python3-vt', '-c', CODE, i], capture_output=True, text=True, env=env, cwd='/verif')
                out.append('   %s contract: %s%s' % (i, r.stdout.strip(), '' if r.returncode == 0 else ' CRASH ' + r.stderr[-300:]))
            r = subprocess.run(['/opt/venv/bin/python', '/verif/replay/run.py', i, '--budget', '6', '--seed', '1'], capture_output=True, text=True, env=env, cwd='/verif/replay')
            try:
                j = json.loads(r.stdout)
                out.append('   %s replay: %s' % (i, 'VIOL ' + json.dumps(j['violation'])[:120] if j['violation'] else 'quiet %s' % (j['error'] or '')[-200:]))
            except Exception:
                out.append('   %s replay: no answer %s' % (i, r.stderr[-200:]))
    finally:
        shutil.rmtree(d)
    return '%s\n%s' % (label, '\n'.join(out))


with ThreadPoolExecutor(5) as ex:
    for o in ex.map(go, [m for m in muts if not want or m[0] in want]):
        print(o, flush=True)
