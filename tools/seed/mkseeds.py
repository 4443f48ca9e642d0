#!/usr/bin/env python3
"""Makes seeded/<id>/ from seeds.txt files: a scratch copy of /repo is changed and
diffed; the demonstration is built with kit.go. With ids as arguments, only those."""
import json, os, re, subprocess, sys, shutil
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
S = '/tmp/seedrepo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off', GO111MODULE='on', CGO_ENABLED='0')
seeds = {}
for f in sorted(os.listdir(H)):
    if re.match(r'seeds.*\.py$', f): exec(open(os.path.join(H, f)).read())
def run(cmd, cwd, t=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
if not os.path.exists(S): subprocess.run(['cp', '-a', '/repo', S], check=True)
os.makedirs('/tmp/mf', exist_ok=True)
open('/tmp/mf/go.mod', 'w').write(open('/repo/go.mod').read() + '\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => /verif/stubs/go-jwx\n')
shutil.copy('/repo/go.sum', '/tmp/mf/go.sum')
bad = 0
for i, s in seeds.items():
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'], check=True)
    ok = True
    for path, old, new in s['edits']:
        if not os.path.exists(S + '/' + path): print(i, 'NO FILE', path); ok = False; break
        t = open(S + '/' + path).read()
        n = t.count(old)
        if n != 1 and not s.get('nth'):
            print(i, 'EDIT matches', n, 'times:', old[:60]); ok = False; break
        k = s.get('nth', {}).get(path, 0)
        at = -1
        for _ in range(k + 1): at = t.index(old, at + 1)
        open(S + '/' + path, 'w').write(t[:at] + new + t[at + len(old):])
    if not ok: bad += 1; continue
    for path, imp in s.get('gofix', []):
        f = S + '/' + path; t = open(f).read()
        if '"%s"' % imp in t: continue
        if 'import (' in t: t = t.replace('import (\n', 'import (\n\t"%s"\n' % imp, 1)
        else: t = re.sub(r'(?m)^(package \w+\n)', r'\1\nimport "%s"\n' % imp, t, count=1)
        open(f, 'w').write(t); subprocess.run(['gofmt', '-w', f])
    diff = subprocess.run(['git', '-C', S, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    main = s['demo']
    if not main.startswith('package'):
        main = 'package main\n\nimport (\n' + ''.join('\t%s\n' % x if ' ' in x else '\t"%s"\n' % x for x in s.get('imports', []) if re.search(r'\b' + re.escape(x.split('/')[-1]) + r'\.', main)) + ')\n\nfunc main() {\n' + main + '\n}\n'
    open(d + '/main.go', 'w').write(main)
    subprocess.run(['gofmt', '-w', d + '/main.go'])
    shutil.copy(H + '/kit.go', d + '/kit.go'); shutil.copy(H + '/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    shutil.copytree(V + '/stubs/go-jwx', d + '/jwx', dirs_exist_ok=True)
    if s.get('race'): open(d + '/race', 'w').close()
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # the patched tree: builds, tests pass, demo fails; the original: demo passes
    rc, out = run(['go', 'build', '-modfile', '/tmp/mf/go.mod', './...'], S)
    if rc: print(i, 'DOES NOT BUILD', out[-500:]); bad += 1; continue
    rc, out = run(['go', 'test', '-modfile', '/tmp/mf/go.mod', './...'], S)
    full = 'all tests pass' if rc == 0 else 'full tests FAIL: ' + ' '.join(re.findall(r'--- FAIL: (\S+)', out))
    pk = ['./' + x for x in 'authorization basic_auth flow log oauth_error pkce prompt response_mode scope'.split()]
    rc, out = run(['go', 'test', '-modfile', '/tmp/mf/go.mod'] + pk, S)
    if rc: print(i, 'STABLE TESTS FAIL', out[-500:]); bad += 1; continue
    rc1, out1 = run([d + '/demo.sh'], S)
    rc0, out0 = run([d + '/demo.sh'], '/repo')
    state = 'ok' if rc0 == 0 and rc1 == 1 else 'BAD'
    if state == 'BAD': bad += 1
    print(i, s['property'], state, full, '| patched:', rc1, out1.strip()[-150:], '| original:', rc0, out0.strip()[-300:] if rc0 else '')
subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'])
print('bad:', bad)
