"""Regenerates MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in props.T:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=props.TECH.get(i, props.TECH['*']), level=props.LEVEL.get(i, 'model_checking'),
                           level_note=props.NOTE.get(i, props.NOTE['*'])))
na = [dict(property=i, reason=props.NA.get(i, 'not yet built')) for i in ids if i not in props.T]
m = dict(version=1, setup_cmd='python3 lib/build.py std', checks=checks, hooks=dict(guard='', enable='', source_commits=[]), not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
