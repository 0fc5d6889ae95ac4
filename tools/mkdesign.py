#!/usr/bin/env python3
"""Writes DESIGN.md from design.tmpl.md, known_findings.json, seeded/ and detected.txt (the output of detectc.sh)."""
import json, os, re, textwrap
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
fs = json.load(open(root + '/known_findings.json'))['findings']
num = lambda f: int(re.sub(r'\D', '', f['id']))
fixed, seen = [], set()
for f in sorted((f for f in fs if f['status'] == 'fixed'), key=num):
    if f['id'] not in seen:
        seen.add(f['id']); fixed.append(f)
known = {}
for f in sorted((f for f in fs if f['status'] != 'fixed'), key=num):
    known.setdefault(f['id'], []).append(f)
ktext = '\n'.join(textwrap.fill('* %s (%s): %s' % (i, ', '.join(sorted({f['property'] for f in l})), l[0]['what']), 78, subsequent_indent='  ') for i, l in known.items())
body = open(here + '/design.tmpl.md').read()
body = body.replace('{nfixed}', str(len(fixed))).replace('{known}', ktext)
det = {}
for line in open(here + '/detected.txt'):
    m = re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s', line)
    if m: det.setdefault(m[1], {})[m[2]] = m[3]
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    r = det.get(d, {})
    hit = ', '.join(c for c, v in r.items() if v == '1') or ('not run' if not r else 'missed')
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], hit, m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
app = ['\n## Appendix: planted bugs and the checks that catch them\n', '| id | property | caught by | what it breaks |', '|----|----|----|----|'] + rows
app += ['\n## Appendix: defects repaired\n']
for f in fixed:
    m = re.match(r'fixed: property=\S+ (\S+)', f.get('record', ''))
    app.append(textwrap.fill('* %s (%s, %s) %s' % (f['id'], f['property'], m[1] if m else '?', f['what']), 100, subsequent_indent='  '))
open(root + '/DESIGN.md', 'w').write(body.rstrip() + '\n' + '\n'.join(app) + '\n')
