"""notes.json: level and wording for the properties whose check is not (yet) a discharged proof"""
import json, os
os.chdir('/verif')
T = 'contract checked at run time on the real functions over generated inputs: bounded stand-in, no obligation discharged'
N = 'Bounded stand-in: the contract (postconditions of the public functions) is evaluated on the real code for structured random inputs within the time budget of the check, corner cases included; not a proof.'
claimed = open('tools/claimed.txt').read().split()
out = {i: {'technique': T, 'level': 'exploration', 'note': N} for i in claimed if not os.path.exists('contracts/%s.py' % i)}
json.dump(out, open('tools/notes.json', 'w'), indent=1)
print(sorted(out))
