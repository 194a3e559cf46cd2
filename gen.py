#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py and registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry, props

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']
        f.write(json.dumps(d) + '\n')

checks = []
for p in props.PROPS:
    if p['id'] in registry.CHECKS:
        checks.append(dict(
            property=p['id'],
            quick_cmd='python3 run_check.py %s --tier quick' % p['id'],
            thorough_cmd='python3 run_check.py %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique='stateless model checking: exhaustive bounded exploration of the real code (' + p.get('how', 'all event orders and environment answers') + ') against a reference model',
            level='model_checking',
            level_note=p.get('note', 'Every execution within the bounds is run on the real code (ASan+UBSan) and compared with the oracle; nothing is claimed beyond the bounds. Assumes a single threaded FIFO executor and the environment model in lib/cob.hpp.')))
na = [dict(property=p['id'], reason=p['na']) for p in props.PROPS if p['id'] not in registry.CHECKS]
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='COBALT_VERIF', enable='no hooks were needed: the checks compile /repo as it is', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks build /repo/include and /repo/src with their drivers in checks/*.cpp into /verif/build. See DESIGN.md.')
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
missing = [k for k in registry.CHECKS if k not in [p['id'] for p in props.PROPS]]
assert not missing, missing
print(len(props.PROPS), 'properties,', len(checks), 'checks')
