#!/usr/bin/env python3
"""check.py [ids]: runs the checks on edits that change no behaviour, in scratch copies; all have to stay quiet.
ALL=1 runs every check, not only those of the edited files."""
import os, re, subprocess, sys, time, shutil
H = os.path.dirname(os.path.abspath(__file__)); d = '/tmp/mvref'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off', GO111MODULE='on', CGO_ENABLED='0')
refs = {}
for f in sorted(os.listdir(H)):
    if re.match(r'refs.*\.py$', f): exec(open(os.path.join(H, f)).read())
src = open(H + '/../mutate/run.py').read()
exec(src[src.index('ORDER = {'):src.index('SLOW = ')])
ORDER.update({'response_mode/util.go': 'C17', 'pkce/crypto.go': 'C06 C35 C44', 'pkce/verifier.go': 'C06 C35', 'flow/flow.go': 'C18 C22 C27', 'scope/util.go': 'C28 C14 C07 C22 C20', 'prompt/util.go': 'C28 C19 C20', 'io/time.go': 'C04 C43', 'grant/interface.go': 'C09 C08'})
os.makedirs(d + '/verif', exist_ok=True)
if not os.path.exists(d + '/repo'): subprocess.run(['cp', '-a', '/repo', d + '/repo'])
subprocess.run(['cp', '-a', '/verif/harness', '/verif/stubs', '/verif/known_findings.txt', '/verif/bounds.json', d + '/verif/'])
m = open('/verif/harness/go.mod').read().replace('=> /repo', '=> ' + d + '/repo')
open(d + '/verif/harness/go.mod', 'w').write(m)
open(d + '/go.mod', 'w').write(open('/repo/go.mod').read() + '\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => /verif/stubs/go-jwx\n')
shutil.copy('/repo/go.sum', d + '/go.sum')
subprocess.run(['go', 'build', '-o', '/tmp/vengine_r', '.'], cwd='/verif/engine', env=ENV, check=True)
bad = 0
for i, edits in refs.items():
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    ok = True; props = []
    for e in edits:
        path = e[0]
        t = open(d + '/repo/' + path).read()
        if callable(e[1]):
            n = e[1](t)
            if n == t: print(i, 'EDIT does nothing:', path); ok = False; break
            open(d + '/repo/' + path, 'w').write(n)
            props += [p for p in ORDER.get(path, '').split() if p not in props]
            continue
        old, new = e[1:3]
        if t.count(old) != 1 and len(e) < 4: print(i, 'EDIT matches', t.count(old), 'times:', path, old[:60]); ok = False; break
        t = t.replace(old, new)
        open(d + '/repo/' + path, 'w').write(t)
        props += [p for p in ORDER.get(path, '').split() if p not in props]
    if not ok: bad += 1; continue
    if os.environ.get('ALL'): props = ['C%02d' % k for k in range(1, 45)]
    if os.environ.get('PROPS'): props = os.environ['PROPS'].split()
    subprocess.run('go run /verif/tools/refactor/imports.go $(git diff --name-only | grep go$) 2>/dev/null; gofmt -w $(git diff --name-only)', shell=True, cwd=d + '/repo', env=ENV)
    p = subprocess.run('gofmt -l . ; go build -modfile ../go.mod ./... && go test -modfile ../go.mod ./...', shell=True, cwd=d + '/repo', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print(i, 'BUILD/TEST', p.stdout[-600:]); bad += 1; continue
    t = time.time()
    p = subprocess.run(['timeout', '900', '/tmp/vengine_r', '-verif', d + '/verif', '-property', ','.join(props)], env=ENV, cwd='/tmp', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    red = re.findall(r'^(?:REDUCED|VIOL|counter).*', p.stdout, re.M)
    quiet = p.returncode == 0 and 'VIOLATION' not in p.stdout
    state = 'quiet' if quiet and not red else 'REDUCED' if quiet else 'ALARM'
    bad += state != 'quiet'
    print('%-22s %-7s rc=%d %.0fs %s %s' % (i, state, p.returncode, time.time() - t, ' '.join(props), ''.join('\n    ' + x[:330] for x in red[:6])), flush=True)
subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
print('bad:', bad)
