#!/usr/bin/env python3
"""writes MANIFEST.json from the claimed-property table"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(R, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
ids = [p['id'] for p in props]
checks = [{'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
           'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n} for i, (t, l, n) in sorted(CLAIMS.items())]
na = [{'property': i, 'reason': NA[i]} for i in ids if i not in CLAIMS]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contract-based deductive verification of the clang AST of the real headers; see DESIGN.md. No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('ok', len(checks), 'claimed', len(na), 'not applicable')
except ImportError: pass
