"""development helper: run the contracts of several properties in parallel, print a summary"""
import os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
os.chdir('/verif')
ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob('contracts/[A-Z][0-9][0-9].py'))
CODE = '''
import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
import importlib
from contracts.base import C
from engine import prover
pid=sys.argv[1]
prover.DEADLINE[0]=time.time()+300
c=C(pid); t=time.time()
importlib.import_module('contracts.'+pid).run(c)
bad=[o for o in c.obls if not o[1]]
print(pid,len(c.obls),'obligations',len(bad),'failed', 'vacuous',c.vacuous,'%.1fs'%(time.time()-t), prover.STATS['z3_calls'])
for o in bad[:4]: print('   FAIL',o[0], o[2][:300])
'''
def go(i):
    if not os.path.exists('contracts/%s.py' % i):
        return i + ' no contract\n'
    r = subprocess.run(['python3-vt', '-c', CODE, i], capture_output=True, text=True)
    return r.stdout + r.stderr[-500:]
with ThreadPoolExecutor(6) as ex:
    for o in ex.map(go, ids):
        print(o, end='', flush=True)
