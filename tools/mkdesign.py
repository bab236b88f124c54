"""Write DESIGN.md from tools/design_head.md, properties.jsonl, the rules' own descriptions, tools/design_notes.py and seeded/."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, 'tools'))
import design_notes as dn
out = [open(os.path.join(here, 'tools/design_head.md')).read()]
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
man = json.load(open(os.path.join(here, 'MANIFEST.json')))
na = {x.get('property') or x.get('id'): x['reason'] for x in man['not_applicable']}
tech = {c['property']: c for c in man['checks']}
out.append('## Properties\n')
for p in props:
    i = p['id']
    out.append('### %s - %s\n\n%s\n' % (i, p['title'], p['statement']))
    if i in na:
        out.append('**Not applicable.** %s\n' % na[i])
        continue
    m = importlib.import_module('rules.' + i.lower())
    out.append('*Method.* %s\n' % m.EXPLANATION)
    out.append('*Oracle / rule.* `%s`\n' % m.RULE)
    out.append('*Assumptions.* %s.\n' % '; '.join(m.ASSUMPTIONS))
    out.append('*Claim.* %s\n' % tech[i]['level_note'])
    for n in dn.NOTES.get(i, []):
        out.append('* ' + n + '\n')
    s = []
    for d in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
        j = json.load(open(d))
        if j['property'] == i:
            nm = os.path.basename(os.path.dirname(d))
            s.append('`%s` (%s) - %s' % (nm, j['what_it_breaks'].rstrip('.'), 'missed' if nm in dn.MISSED else 'caught'))
    if s:
        out.append('*Planted bugs.*\n\n' + '\n'.join('* ' + x for x in s) + '\n')
out.append('## Repairs in /repo\n\nOne line per `fix:` commit (from `known_findings.txt`).\n')
for l in open(os.path.join(here, 'known_findings.txt')):
    if l.startswith('fixed:'):
        w = l.split()
        out.append('* %s %s: %s' % (w[1].split('=')[1], w[2], ' '.join(w[3:])))
out.append('\n## Findings recorded, not repaired\n')
for l in open(os.path.join(here, 'known_findings.txt')):
    if l.startswith('finding:'):
        out.append('* ' + l[len('finding: '):].strip())
out.append('\n' + dn.TAIL)
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
