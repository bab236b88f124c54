"""Writes MANIFEST.json and properties.jsonl from tools/mkprops.py (single source of texts) and the rule modules."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkprops
from mkprops import P, TECH, NA
have = []
for x in P:
    if os.path.exists(os.path.join(HERE, 'rules', x['id'].lower() + '.py')) and x['id'] in TECH:
        have.append(x['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        if x['id'] in have or x['id'] in NA:
            f.write(json.dumps(x) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import ast"', 'checks': [], 'not_applicable': []}
for i in have:
    tech, note = TECH[i]
    m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i, 'technique': tech, 'level': 'other',
                        'level_note': note, 'evidence_file': 'evidence/%s.json' % i})
for i in sorted(NA):
    m['not_applicable'].append({'property': i, 'reason': NA[i]})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print('claimed', have, 'n/a', sorted(NA))
import jsonschema
sch = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, sch)
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, ps)
