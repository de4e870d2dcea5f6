"""one worker of a property's proof:  prove.py ID shard nshards deadline_s out.json   (verifier interpreter)"""
import importlib
import json
import os
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main():
    pid, k, n, dl, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    from contracts.base import C
    from engine import prover
    prover.DEADLINE[0] = t0 + dl
    c = C(pid)
    c.shard = (k, n)
    err = None
    try:
        importlib.import_module('contracts.' + pid).run(c)
    except BaseException as e:  # noqa: BLE001
        import traceback
        err = traceback.format_exc()[-3000:]
    r = {'obls': [(a, b, d[:6000]) for a, b, d in c.obls], 'negs': len(c.negs), 'vacuous': c.vacuous, 'funcs': sorted(c.funcs),
         'models': sorted(map(str, c.models)), 'calls': c.calls, 'unsupported': c.unsupported, 'known': c.known,
         'assumed': sorted(c.assumed), 'bounded': c.bounded, 'retired': c.retired, 'units': c.unit + 1,
         'stats': {k: v for k, v in prover.STATS.items() if isinstance(v, (int, float))},
         'timing': c.timing, 'wall': time.time() - t0, 'error': err}
    with open(out, 'w') as f:
        json.dump(r, f, default=str)


t = threading.Thread(target=main)
t.start()
t.join()
