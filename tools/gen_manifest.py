"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': NOTES.get(i, {}).get('technique', NOTES['default']['technique']),
                       'level': 'model_checking',
                       'level_note': NOTES.get(i, {}).get('note', NOTES['default']['note'])})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'its check is not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks}
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
