#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from spec.py and the registry of rules"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(ROOT, 'analysis')]
from spec import PROPS
import registry
with open(ROOT + '/properties.jsonl', 'w') as o:
    for p in PROPS:
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for p in PROPS:
    e = registry.PROPS.get(p['id'])
    if e:
        checks.append(dict(property=p['id'], quick_cmd='python3 analysis/check.py %s quick' % p['id'], thorough_cmd='python3 analysis/check.py %s thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=e.get('technique', 'dataflow: guarded effect summaries of every function over the resolved clang syntax tree, compared with per-property contracts'),
            level='other', level_note=e.get('note', 'Sound for the constructs the summaries resolve, per function with calls inlined or replaced by the contract of the callee; paths it cannot resolve are reported as undecided in the evidence and never as violations. Trusts clang\'s resolution, the models of the standard library, and that a function obeys the contract checked for it elsewhere.')))
    else: na.append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
json.dump(dict(version=1, setup_cmd='sh tool/build.sh', checks=checks, not_applicable=na,
    notes='Static analysis only: the sources are parsed by clang and never run. See DESIGN.md.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable', [x['property'] for x in na])
