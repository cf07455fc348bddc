"""dev tool: DESIGN.md from notes/design_*.md, the evidence files (rules) and seeded/*/meta.json"""
import json, glob, os, sys
sys.path.insert(0, '/verif')
from props import PROPS, NA
V = '/verif/'
out = open(V + 'notes/design_head.md').read()
for p in PROPS:
    f = V + 'evidence/%s.json' % p['id']
    out += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if os.path.exists(f):
        c = json.load(open(f))['coverage']
        out += 'Why tests cannot settle it: %s Analysed: %s; %d functions, %d paths, %d obligations, %d undecided.\n\n' % (
            p['why'], ', '.join(c['translation_units']), c['functions_analysed'], c['paths'], c['obligations'], c['undecided'])
        for r in c['rules']:
            out += '- *%s* (n=%s): %s\n' % (r['id'], r['instances'], r['rule'])
        out += '\n'
    if p['note'].split('engine/interp.py, ')[-1]:
        out += 'Assumes: %s\n\n' % p['note'].split('engine/interp.py, ')[-1]
out += '### Not applicable\n\n'
for n in NA:
    out += '- %s %s: %s\n' % (n['id'], n['title'], n['reason'])
out += '\n' + open(V + 'notes/design_tail.md').read()
out += '| planted bug | property | what it needs | caught by |\n|---|---|---|---|\n'
caught = json.load(open(V + 'notes/caught.json')) if os.path.exists(V + 'notes/caught.json') else {}
for m in sorted(glob.glob(V + 'seeded/*/meta.json')):
    i = m.split('/')[-2]
    d = json.load(open(m))
    out += '| %s | %s | %s | %s |\n' % (i, d['property'], d['needs'], caught.get(i, d['property']))
out += '\n## Repaired defects\n\nEach is a "fix:" commit in /repo; a check reports it again if it returns.\n\n'
for l in json.load(open(V + 'known_findings.json')).get('fixed', []):
    out += '- %s\n' % (l if isinstance(l, str) else l.get('line', str(l)))
open(V + 'DESIGN.md', 'w').write(out)
