#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and tools/config.py."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from config import CONFIG
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CONFIG:
        c = CONFIG[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'property-based testing: generated values and documents against independent reference codecs, under ASan+UBSan, with shrinking'),
            'level': 'exploration',
            'level_note': c.get('note', 'Randomized search, no exhaustiveness: holds on every generated case; ' + ('assumes that ' + '; '.join(c['assumptions']) if c['assumptions'] else 'trusts the sanitizers and the harness') + '.')})
    else: na.append({'property': i, 'reason': 'applicable, but its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check compiles its harness against the working tree of /repo (header-only library), so there is nothing to set up. No hooks in /repo. Known findings and repaired defects: KNOWN_FINDINGS.txt; design: DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
