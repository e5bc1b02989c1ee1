#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
REASON = {}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': REASON.get(pid, 'The check is not built yet.')})
        continue
    mod = importlib.import_module('pbt.props.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % pid,
        'technique': mod.TECHNIQUE,
        'level': 'exploration',
        'level_note': mod.NOTE,
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup',
               'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
