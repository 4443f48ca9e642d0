#!/usr/bin/env python3
"""Writes bounds.json and the per-property section of DESIGN.md from tools/design.json."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(root + '/tools/design.json'))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
json.dump({p: (d[p]['bounds'] if p != '*' else d[p]) for p in d}, open(root + '/bounds.json', 'w'), indent=1)
out = []
for p in props:
    e = d[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Decided by:* ' + e['how'] + '\n')
    out.append('*Bounds:* ' + '; '.join(e['bounds']) + '.\n')
    if e.get('out'): out.append('*Left open:* ' + e['out'] + '\n')
    out.append('*Beyond tests:* ' + e['why'] + '\n')
t = open(root + '/DESIGN.md').read()
t = re.sub(r'(<!-- properties -->\n).*(<!-- end properties -->)', lambda m: m.group(1) + '\n' + '\n'.join(out) + '\n' + m.group(2), t, flags=re.S)
open(root + '/DESIGN.md', 'w').write(t)
rows = ['| id | property | needs |', '|---|---|---|']
for s in sorted(os.listdir(root + '/seeded')) if os.path.isdir(root + '/seeded') else []:
    m = json.load(open(root + '/seeded/' + s + '/meta.json'))
    rows.append('| %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|')))
t = open(root + '/DESIGN.md').read()
t = re.sub(r'(<!-- seeds -->\n).*(<!-- end seeds -->)', lambda m: m.group(1) + '\n' + '\n'.join(rows) + '\n\n' + m.group(2), t, flags=re.S)
open(root + '/DESIGN.md', 'w').write(t)
