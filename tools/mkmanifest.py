"""Writes ../MANIFEST.json from the list of checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')) and i in INFO:
        technique, note = INFO[i]
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           technique=technique, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='The checks explore the Python code of /repo directly (VERIF_REPO overrides the location); no hooks are needed. known_findings.txt lists the defects found.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
