"""Writes MANIFEST.json from the checks that exist in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i + '.py')) and i in notes:
        t, n = notes[i]
        checks.append({'property': i, 'quick_cmd': '/usr/bin/python3 /verif/mc/run.py %s quick' % i,
                       'thorough_cmd': '/usr/bin/python3 /verif/mc/run.py %s thorough' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/usr/bin/python3 /verif/mc/build.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
