#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness functions present and tools/notes.json."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
notes = json.load(open(V + '/tools/notes.json'))
have = set()
for f in glob.glob(V + '/harness/props/c*.go'):
    have |= set(re.findall(r'^func (C\d\d)_', open(f).read(), re.M))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in notes.get('not_applicable', {}):
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i} quick',
            'thorough_cmd': f'./run.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real Go code (go/ssa) with Z3 deciding every path and assertion; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': notes['level_note'] + ' ' + notes.get('notes', {}).get(i, ''),
        })
    else:
        na.append({'property': i, 'reason': notes.get('not_applicable', {}).get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
