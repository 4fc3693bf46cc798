#!/usr/bin/env python3
"""mkseed.py: make or recheck a planted bug in /verif/seeded/ID from its spec.py.
spec.py defines prop, pkg, needs, breaks, edits=[(file, old, new)], helpers=[...] ; demo_test.go lies beside it."""
import sys, os, shutil, subprocess, tempfile, json
V = '/verif'
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package directory (through an overlay): exit 0 if the property is respected.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
O=$(mktemp --suffix=.json)
trap 'rm -f "$O"' EXIT
printf '{"Replace":{%s}}' > "$O"
%sgo test -vet=off -count=1 -timeout 120s -overlay "$O" -run '^TestDemo' %s ./%s
'''
def one(i):
    d = '%s/seeded/%s' % (V, i)
    sp = {}
    exec(open('%s/tools/demo/specs/%s.py' % (V, i)).read(), sp)
    os.makedirs(d, exist_ok=True)
    pkg = sp['pkg']
    files = {'demo_test.go': None}
    open(d + '/demo_test.go', 'w').write(sp['demo'].lstrip('\n'))
    for h in sp.get('helpers', []):
        shutil.copy('%s/tools/demo/%s' % (V, h), d + '/' + h); files[h] = None
    rep = ','.join('"\'"$PWD"\'/%s":"\'"$D"\'/%s"' % ((pkg + '/' if pkg else '') + 'zz_' + f, f) for f in files)
    open(d + '/demo.sh', 'w').write(DEMO % (rep, sp.get('env', ''), sp.get('flags', ''), pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': sp['prop'], 'needs': sp['needs'], 'what_it_breaks': sp['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    r = w + '/repo'
    try:
        sh('cp -a /repo %s' % r)
        rc, o = sh('bash %s/demo.sh' % d, cwd=r)
        if rc: print(i, 'DEMO FAILS ON BASE', o[-1500:]); return
        for f, old, new in sp['edits']:
            s = open(r + '/' + f).read()
            if s.count(old) != 1: print(i, 'edit matches %d times in %s: %r' % (s.count(old), f, old)); return
            open(r + '/' + f, 'w').write(s.replace(old, new))
        rc, o = sh('. /opt/vp/env.sh; cd %s; gofmt -l $(git diff --name-only); go build ./...' % r)
        if rc or o.strip(): print(i, 'build:', o[:600])
        if rc: return
        rc, o = sh('git diff', cwd=r)
        open(d + '/patch.diff', 'w').write(o)
        rc, o = sh('bash %s/demo.sh' % d, cwd=r)
        if not rc: print(i, 'DEMO PASSES WITH THE BUG'); return
        why = [l for l in o.splitlines() if l.strip() and not l.startswith(('FAIL', '---', 'ok'))][:2]
        rc, o = sh('. /opt/vp/env.sh; cd %s; go test -vet=off -timeout 100s ./... 2>&1 | grep -v "no test files"' % r)
        t = 'tests ok' if 'FAIL' not in o else 'TESTS FAIL ' + o[-800:]
        ck = ''
        if os.path.exists('/tmp/an'):
            os.makedirs(w + '/out/evidence'); shutil.copy(V + '/known_findings.txt', w + '/out/')
            rc, o = sh('/tmp/an check %s %s/out %s quick' % (r, w, sp['prop']))
            ck = 'check rc=%d ' % rc + '; '.join(l.strip()[:110] for l in o.splitlines() if ' | ' in l and 'condition' not in l)[:240]
        print(i, sp['prop'], t, '|', ck, '|', ' '.join(why)[:160])
    finally:
        shutil.rmtree(w)
for i in sys.argv[1:]: one(i)
