"""make and validate planted bugs: python3 tools/mkseed.py spec.py   (development helper; no check uses it)

spec.py defines SEEDS = [dict(id, prop, file, edits=[(old,new),...], demo=python text, needs, breaks)].
For each: patch.diff from a scratch copy, stable tests in the copy, demo on both trees."""
import json, os, shutil, subprocess, sys, tempfile, runpy
SPEC = runpy.run_path(sys.argv[1])['SEEDS']
only = set(sys.argv[2:])
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **k)


for s in SPEC:
    if only and s['id'] not in only:
        continue
    d = tempfile.mkdtemp(prefix='sgseed_', dir='/tmp')
    w = os.path.join(d, 'repo')
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('__pycache__'))
    ok = True
    for e in s['edits']:
        f, old, new = e if len(e) == 3 else (s['file'], e[0], e[1])
        p = os.path.join(w, 'shipgrav', f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT matches', t.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if ok:
        patch = sh(['git', 'diff'], cwd=w).stdout
        out = os.path.join('/verif/seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.py'), 'w').write(HEAD + s['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        x = os.path.join(d, 'j.xml')
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml=' + x, 'shipgrav/tests'], cwd=w)
        import xml.etree.ElementTree as ET
        good = set()
        for c in ET.parse(x).getroot().iter('testcase'):
            if not any(c.find(k) is not None for k in ('failure', 'error', 'skipped')):
                good.add(c.get('classname') + '::' + c.get('name'))
        miss = [t for t in STABLE if t not in good]
        a = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo')
        b = sh(['bash', os.path.join(out, 'demo.sh')], cwd=w)
        st = 'OK' if not miss and a.returncode == 0 and b.returncode != 0 else 'BAD'
        print(s['id'], st, 'tests failing:', miss, 'demo clean', a.returncode, 'patched', b.returncode)
        if st == 'BAD':
            print(a.stderr[-600:], b.stderr[-300:])
    shutil.rmtree(d)
