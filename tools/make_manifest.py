"""Writes MANIFEST.json for every property module that exists."""
import importlib.util
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(ROOT, 'harness', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        continue
    src = open(path).read()
    note = re.search(r"^NOTE = \((.*?)^\)", src, re.S | re.M)
    tech = re.search(r"^TECHNIQUE = '(.*)'", src, re.M)
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough ./check {p['id']}",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': tech.group(1) if tech else 'property-based testing (Hypothesis) against an independent oracle',
        'level': 'exploration',
        'level_note': eval('(' + note.group(1) + ')') if note else 'seeded random search with shrinking; no proof',
    })
json.dump({
    'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
    'notes': 'All checks import weac from /repo as it is; no hooks. VERIF_SEED seeds every generator.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
