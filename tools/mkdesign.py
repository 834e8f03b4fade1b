#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_props.md, design_tail.md, the properties and the seeds."""
import json, os, glob, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
head = open(here + '/design_head.md').read()
props = open(here + '/design_props.md').read()
tail = open(here + '/design_tail.md').read()
info = {}
for l in open(root + '/properties.jsonl'):
    d = json.loads(l); info[d['id']] = d
m = json.load(open(root + '/MANIFEST.json'))
chk = {c['property']: c for c in m['checks']}
na = {n['property']: n for n in m['not_applicable']}
sections = re.split(r'(?m)^### ', props)[1:]
body = {}
for s in sections:
    i = s.split()[0]; body[i] = s
out = [head]
for i in sorted(info):
    if i in chk:
        if i not in body: print('no design section for', i)
        t = body.get(i, i + '\n').split('\n', 1)
        out.append('### %s\n\n%s\nMethod: %s. Limits: %s\n' % (i + ' ' + info[i]['title'], t[1].strip(), chk[i]['technique'], chk[i].get('level_note', '')))
out.append('\n## Not applicable\n\n')
for i in sorted(na):
    out.append('* **%s %s**: %s\n' % (i, info[i]['title'], na[i]['reason']))
out.append('\n' + tail)
out.append('\n## Planted bugs and the checks that catch them\n\n| bug | caught by | what it breaks |\n|---|---|---|\n')
for d in sorted(glob.glob(root + '/seeded/*')):
    j = json.load(open(d + '/meta.json'))
    out.append('| %s | %s | %s |\n' % (os.path.basename(d), j['property'], j['what_it_breaks']))
out.append('\n## Defects of the agent found (known_findings.txt)\n\n')
for l in open(root + '/known_findings.txt'):
    if l.startswith('fixed:') or l.startswith('finding:'):
        out.append('* ' + l.strip().replace('|', ' / ') + '\n')
open(root + '/DESIGN.md', 'w').write(''.join(out))
