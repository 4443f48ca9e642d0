#!/usr/bin/env python3
"""run.py MUTANTS.jsonl RESULTS.jsonl LANES [SAMPLE] [FILTER]: runs the checks on mechanical mutants,
in scratch copies of /repo and /verif under /tmp/mv*."""
import json, os, random, re, subprocess, sys, threading, shutil
muts = [json.loads(l) for l in open(sys.argv[1])]
res_path, lanes = sys.argv[2], int(sys.argv[3])
sample = int(sys.argv[4]) if len(sys.argv) > 4 else 0
filt = sys.argv[5] if len(sys.argv) > 5 else ''
muts = [m for m in muts if re.search(filt, m['File'] + ':' + m['Func'] + ':' + m['Desc'])]
# descriptions and other prose
muts = [m for m in muts if not (m['Desc'].startswith('change "') and ' ' in m['Desc'][8:].strip('"'))]
done = set()
if os.path.exists(res_path):
    for l in open(res_path):
        r = json.loads(l); done.add((r['File'], r['From'], r['To'], r['New']))
muts = [m for m in muts if (m['File'], m['From'], m['To'], m['New']) not in done]
random.seed(int(os.environ.get('SEED', '7'))); random.shuffle(muts)
if sample: muts = muts[:sample]
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off', GO111MODULE='on', CGO_ENABLED='0')
ALL = ['C%02d' % i for i in range(1, 46)]
ORDER = {
 'authorization_endpoint.go': 'C22 C24 C19 C20 C21 C16 C23 C34 C17 C35 C36 C33 C37 C38 C39 C40 C42 C43 C45 C41',
 'token_endpoint.go': 'C01 C02 C10 C03 C09 C30 C33 C29 C15 C36 C37 C38 C39 C42 C43 C45 C41',
 'grant/authorization_code.go': 'C04 C05 C06 C10 C11 C09 C02 C36 C37 C38 C39 C42 C43 C45 C41',
 'grant/refresh_token.go': 'C07 C10 C09 C02 C36 C37 C38 C39 C42 C43 C45 C41', 'grant/password.go': 'C08 C10 C09 C36 C37 C38 C39 C42 C43 C45 C41', 'grant/client_credential.go': 'C08 C10 C09 C37 C38 C39 C42 C43 C45 C41',
 'grant/jwt.go': 'C03 C08 C10 C09 C36 C37 C38 C39 C42 C43 C45 C41', 'resource_protector.go': 'C13 C14 C15 C30 C37 C38 C39 C42 C43 C45 C41', 'id_token/id_token.go': 'C12 C11 C23 C36',
 'authorization/response.go': 'C25 C26 C16 C17 C41', 'assertion/error.go': 'C03 C10 C30', 'oauth_error/errors.go': 'C30 C15 C41 C33',
 'log/logger.go': 'C31 C39 C41', 'log/text.go': 'C31 C36 C39 C41', 'crypto/key.go': 'C32 C41', 'flow/flow.go': 'C18 C22', 'prompt/util.go': 'C28 C19', 'scope/util.go': 'C28 C14',
 'authorization/request.go': 'C27 C23 C43', 'basic_auth/util.go': 'C29', 'jwk_endpoint.go': 'C32 C41', 'response_mode/util.go': 'C17', 'pkce/crypto.go': 'C06 C44', 'pkce/verifier.go': 'C06 C35 C41',
}
SLOW = ['C35', 'C33', 'C18', 'C25', 'C26', 'C28']
lock = threading.Lock()
it = iter(muts)
def sh(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
def lane(n):
    d = '/tmp/mv%d' % n
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'])
        os.makedirs(d + '/verif')
        subprocess.run(['cp', '-a', '/verif/harness', '/verif/stubs', '/verif/known_findings.txt', '/verif/bounds.json', d + '/verif/'])
        m = open(d + '/verif/harness/go.mod').read().replace('=> /repo', '=> ' + d + '/repo')
        open(d + '/verif/harness/go.mod', 'w').write(m)
        g = open(d + '/repo/go.mod').read() + '\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => /verif/stubs/go-jwx\n'
        open(d + '/go.mod', 'w').write(g); shutil.copy('/repo/go.sum', d + '/go.sum')
    while True:
        with lock:
            m = next(it, None)
        if m is None: return
        path = d + '/repo/' + m['File']
        orig = open('/repo/' + m['File'], 'rb').read()
        open(path, 'wb').write(orig[:m['From']] + m['New'].encode() + orig[m['To']:])
        r = dict(m)
        try:
            rc, out = sh(['go', 'build', '-modfile', d + '/go.mod', './...'], d + '/repo', 120)
            if rc:
                r['result'] = 'nobuild'
            else:
                pk = os.path.dirname(m['File']) or 'prompt'
                rc = 0
                if pk in 'authorization basic_auth flow log oauth_error pkce prompt response_mode scope'.split():
                    rc, out = sh(['go', 'test', '-modfile', d + '/go.mod', './' + pk], d + '/repo', 120)
                if rc:
                    r['result'] = 'tests'
                else:
                    o = ORDER.get(m['File'], '').split()
                    o += [c for c in ALL if c not in o and c not in SLOW]
                    rc, out = sh(['/tmp/vengine_m', '-verif', d + '/verif', '-first', '-workers', '3', '-seconds', '300', '-property', ','.join(o)], '/tmp', 400)
                    v = re.search(r'VIOLATION property=(C\d\d)', out)
                    if v: r['result'] = v.group(1)
                    elif rc == 0: r['result'] = 'SURVIVED'
                    else: r['result'] = 'rc%d' % rc
                    r['out'] = out[-1500:] if not v else ''
                    r['reduced'] = len(re.findall('REDUCED', out))
        finally:
            open(path, 'wb').write(orig)
        with lock:
            with open(res_path, 'a') as f: f.write(json.dumps(r) + '\n')
ts = [threading.Thread(target=lane, args=(i,)) for i in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
