"""replay/literals.json: the literals of the pinned tree, so the replay can aim at values that are new"""
import json, sys
sys.path.insert(0, '/verif/replay')
import os
json.dump({'nums': [], 'strs': []}, open('/verif/replay/literals.json', 'w')) if not os.path.exists('/verif/replay/literals.json') else None
import rlib
n, s = rlib.literals()
json.dump({'nums': sorted(n), 'strs': sorted(s)}, open('/verif/replay/literals.json', 'w'))
