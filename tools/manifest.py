"""writes MANIFEST.json from tools/config.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools import config
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Contract drivers in drivers/, deductive verifier in vcg/, see DESIGN.md. No hooks in /repo are needed.'}
for p in props:
    i = p['id']
    c = config.P.get(i)
    if c is not None and c.get('claim', True):
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3-vt tools/check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt tools/check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'contract-based deductive verification of the extracted C++ functions (inferred and re-verified loop invariants, SMT discharge)'),
            'level': c.get('level', 'proof'),
            'level_note': c.get('note', config.NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': config.NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']])
