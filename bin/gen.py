#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from bin/props.py and bin/checks.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
na = {x['property'] for x in props.NOT_APPLICABLE}
claimed = [p for p in props.PROPS if p['id'] not in na]
for p in claimed:
    assert p['id'] in checks.PROPS, p['id']
m = dict(version=1, setup_cmd='python3 bin/vf.py setup',
         hooks=dict(guard='none', enable='no hooks: the checks compile the sources of /repo as they are', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3 bin/vf.py check %s --tier quick' % p['id'],
                      thorough_cmd='python3 bin/vf.py check %s --tier thorough' % p['id'], technique=props.T, level='model_checking', level_note=p['note']) for p in claimed],
         not_applicable=props.NOT_APPLICABLE)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
