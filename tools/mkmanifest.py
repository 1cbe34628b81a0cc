#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [],
    'not_applicable': [],
    'notes': 'See DESIGN.md. No hooks in /repo: the checks build the unmodified '
             'sources. Defects repaired in /repo are listed in KNOWN_FINDINGS.md.',
}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', checks.DEFAULT_TECHNIQUE),
            'level': 'exploration',
            'level_note': c.get('note', checks.DEFAULT_NOTE),
        })
    else:
        out['not_applicable'].append(
            {'property': i, 'reason': 'not built yet'})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
