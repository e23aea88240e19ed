#!/usr/bin/env python3
"""Generate MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(root, 'tools', 'techniques.py')).read())
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(root, 'checks', i.lower() + '.py')):
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'chmod +x check && ./tools/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
