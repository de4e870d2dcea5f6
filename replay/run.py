"""replay/run.py ID --seed N --tier quick --budget S --out FILE   (project interpreter)"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ['TZ'] = 'XXX-05:30'      # nothing may depend on the system's time zone
time.tzset()
import rlib  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--tier', default='quick')
ap.add_argument('--budget', type=float, default=8)
ap.add_argument('--out', default='-')
a = ap.parse_args()
r = rlib.R(a.id, a.seed, a.tier, a.budget)
rec = None
err = None
try:
    import shipgrav
    if not os.path.abspath(shipgrav.__file__).startswith(rlib.REPO + '/'):
        raise SystemExit('wrong shipgrav: ' + shipgrav.__file__)
    importlib.import_module('R_' + a.id).run(r)
except rlib.Found as e:
    rec = e.rec
except rlib.OutOfTime:
    pass
except Exception:
    err = traceback.format_exc()
    # an error raised inside the package's code while importing is a failing history too
    if 'shipgrav' in err and 'import shipgrav' in err:
        rec = {'what': 'importing the package fails', 'trace': err[-2000:]}
out = {'id': a.id, 'seed': a.seed, 'evaluations': r.evals, 'distinct': len(r.nontrivial), 'samples': r.samples,
       'violation': rec, 'error': err, 'known': getattr(r, 'known', []), 'assumptions': r.assumptions}
s = json.dumps(out, default=str)
if a.out == '-':
    print(s)
else:
    open(a.out, 'w').write(s)
