"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing that file)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    for p in PROPS + [q for q, _ in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['over_text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                              observe_at=p['observe'], hook_needed=None))
        fp.write(json.dumps(d) + '\n')

checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')):
        continue
    checks.append(dict(property=p['id'],
                       quick_cmd='./run.sh %s --tier quick' % p['id'],
                       thorough_cmd='./run.sh %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p['technique'], level='exploration', level_note=p['note']))
m = dict(version=1,
         setup_cmd='./setup.sh',
         checks=checks,
         not_applicable=[dict(property=q['id'], reason=r) for q, r in NOT_APPLICABLE],
         notes='Runtime monitoring of the real, unmodified package from /repo (PYTHONPATH=/repo; /repo has no hooks): '
               'monitors are attached from outside at run time. See DESIGN.md. Known findings and repairs: known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
print(len(checks), 'checks')
