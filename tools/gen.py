#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and registry.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import props, registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p.get('over', ['inputs', 'histories']), text=p['q']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []),
                                             hook_needed=None))) + '\n')
checks, na = [], []
for p in props.P:
    if p['id'] in registry.PROPS:
        R = registry.PROPS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'],
                           technique=R.get('technique', 'deductive verification of contracts on the extracted source functions (weakest-precondition style symbolic execution, z3/cvc5), failing inputs searched with a contract-derived oracle on the real code'),
                           level=R['level'], level_note=p.get('note', registry.NOTE)))
    else:
        na.append(dict(property=p['id'], reason=p.get('na', 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: functions are extracted mechanically from the sources on every run. known-findings.txt lists recorded defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
