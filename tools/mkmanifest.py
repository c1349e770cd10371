"""Writes MANIFEST.json from harness/table.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import table

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in table.PROPS:
        t = table.PROPS[p]
        checks.append({
            'property': p,
            'quick_cmd': '/opt/venv/bin/python check.py %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': t.get('technique', 'TLA+ model (SaltV2/SaltMC) checked with TLC; every transition replayed in the real sessions'),
            'level': 'model_checking',
            'level_note': t.get('note', 'Exhaustive on the specification within the bounds in the evidence file; the code is bound to it by replaying '
                                        'every explored transition with seeded concrete values. Cryptography is assumed ideal.')})
    else:
        na.append({'property': p, 'reason': table.NA.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses the public API only. Specification language: TLA+ (TLC).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
