#!/usr/bin/env python3
"""check.py [ids]: runs the check of each planted bug's property on the patched tree, in scratch copies."""
import json, os, re, subprocess, sys, time, shutil
V = '/verif'; d = '/tmp/mvseed'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off', GO111MODULE='on', CGO_ENABLED='0')
os.makedirs(d + '/verif', exist_ok=True)
if not os.path.exists(d + '/repo'): subprocess.run(['cp', '-a', '/repo', d + '/repo'])
subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
subprocess.run(['cp', '-a', '/verif/harness', '/verif/stubs', '/verif/known_findings.txt', '/verif/bounds.json', d + '/verif/'])
m = open('/verif/harness/go.mod').read().replace('=> /repo', '=> ' + d + '/repo')
open(d + '/verif/harness/go.mod', 'w').write(m)
subprocess.run(['go', 'build', '-o', '/tmp/vengine_s', '.'], cwd='/verif/engine', env=ENV, check=True)
miss = 0
for i in sorted(os.listdir(V + '/seeded')):
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    s = V + '/seeded/' + i
    meta = json.load(open(s + '/meta.json'))
    p = subprocess.run(['git', '-C', d + '/repo', 'apply', s + '/patch.diff'])
    if p.returncode: print(i, 'DOES NOT APPLY'); continue
    t = time.time()
    p = subprocess.run(['timeout', '600', '/tmp/vengine_s', '-verif', d + '/verif', '-property', meta['property'], '-tier', os.environ.get('TIER', 'quick')], env=ENV, cwd='/tmp', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    caught = p.returncode == 1 and 'VIOLATION property=' + meta['property'] in p.stdout
    if not caught: miss += 1
    why = re.findall(r'counterexample in (.*)', p.stdout)
    print('%-40s %s %s rc=%d %.0fs %s' % (i, meta['property'], 'caught' if caught else 'MISSED', p.returncode, time.time() - t, why[0][:120] if why else ' '.join(re.findall(r'REDUCED.*', p.stdout))[:200] or p.stdout[-300:]), flush=True)
print('missed:', miss)
