#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ps = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(root, 'tools/props/*.json')))]
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in ps:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['id']
        o.write(json.dumps(q, ensure_ascii=False) + '\n')
checks, na = [], []
for p in ps:
    if p.get('not_applicable'):
        na.append({'property': p['id'], 'reason': p['not_applicable']}); continue
    c = p['check']
    checks.append({'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']} quick", 'thorough_cmd': f"bash check.sh {p['id']} thorough",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the drivers use the public API of its packages (see DESIGN.md). known-findings.jsonl lists the findings and the repaired defects.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
