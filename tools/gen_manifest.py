#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from harness/legs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'harness'))
from legs import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    has_mc = any(l['kind'] == 'mc' for l in p['legs'])
    checks.append({
        'property': i,
        'quick_cmd': 'python3 harness/check.py %s' % i,
        'thorough_cmd': 'env VERIF_TIER=thorough python3 harness/check.py %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p.get('technique') or (
            'TLA+ specification model-checked with TLC; every explored transition replayed into the code; recorded real histories validated by TLC'
            if has_mc else 'TLA+ specification of the behaviour; recorded real histories validated against it by TLC'),
        'level': p.get('level', 'model_checking'),
        'level_note': p.get('note') or ('The specification is explored exhaustively within the bounds of its configuration; the code is bound to it by conformance checking of the emitted and of randomly generated histories, so deviations outside those histories are not excluded.'
            if has_mc else 'Conformance of recorded histories to the specification; deviations outside the generated histories are not excluded.'),
    })
m = {'version': 1,
     'setup_cmd': 'bash tools/setup.sh',
     'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in PROPS],
     'notes': 'Specification language: TLA+ with TLC. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
