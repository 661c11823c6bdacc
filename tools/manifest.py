"""writes MANIFEST.json: one check per module checks/cNN.py, the rest not_applicable"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(root, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': './check.sh %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, TECHNIQUE), 'level': 'other', 'level_note': NOTE.get(i, LEVEL_NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
