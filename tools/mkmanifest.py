"""MANIFEST.json from the list of claimed properties"""
import json, os, sys
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
claimed = open('tools/claimed.txt').read().split()
NOTE = json.load(open('tools/notes.json')) if os.path.exists('tools/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
            'technique': NOTE.get(i, {}).get('technique', 'contract-based deductive verification: symbolic execution of the current source of the '
                                      'functions, every postcondition discharged for all inputs and lengths by term normalisation and z3; '
                                      'contracts replayed on the real code'),
            'level': NOTE.get(i, {}).get('level', 'proof'),
            'level_note': NOTE.get(i, {}).get('note', 'Every obligation is generated from /repo\'s current source and discharged in real arithmetic '
                                              'for symbolic arrays of any length; library calls are trusted models, rounding is not modelled.')})
    else:
        na.append({'property': i, 'reason': NOTE.get(i, {}).get('na', 'contract not yet within the verifier\'s reach in this revision')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, ast" && /opt/venv/bin/python -c "import numpy, pandas, scipy, statsmodels"',
     'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
