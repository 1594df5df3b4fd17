#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description file and confirms it in a scratch copy of /repo.
   usage: mkseed.py FILE...    FILE: python text defining id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source) or sh
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo.go.txt\\"}}" > "$T/o.json"
go test %(race)s-vet=off -count=1 -timeout 60s -overlay "$T/o.json" -run 'TestZZDemo' ./%(pkg)s
'''
def stable(repo):
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, HOME='/root', PATH='/usr/local/go/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
    sh = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', open('/opt/vp/env.sh').read().replace('cd /repo', 'cd ' + repo)).replace('/opt/vp/gotest.log', repo + '.log')
    subprocess.run(['bash', '-c', sh, 'x', repo + '.json'], env=env, stderr=subprocess.DEVNULL)
    got = set(json.load(open(repo + '.json'))['passed'])
    for x in ('.log', '.json'): os.path.exists(repo + x) and os.remove(repo + x)
    return [t for t in b if t not in got]
def make(f):
    d = dict(race='', sh=None); exec(open(f).read(), d)
    out = os.path.join(V, 'seeded', d['id']); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/demo.sh', 'w').write(d['sh'] or SH % d)
    if d.get('demo'): open(out + '/demo.go.txt', 'w').write(d['demo'])
    for n, t in d.get('extra', {}).items(): open(out + '/' + n, 'w').write(t)
    json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seed-'); r = w + '/repo'
    ok = False
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        demo = lambda: subprocess.run(['bash', out + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = demo()
        if p.returncode: print(d['id'], 'DEMO FAILS ON UNCHANGED TREE', p.stdout[-1500:]); return False
        for file, old, new in d['edits']:
            s = open(r + '/' + file).read()
            if s.count(old) != 1: print(d['id'], 'edit matches', s.count(old), 'times:', old); return False
            open(r + '/' + file, 'w').write(s.replace(old, new))
        open(out + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', r, 'diff'], text=True))
        mine, rem = 0, 0
        for file, _, _ in d['edits']:
            base = subprocess.check_output(['git', '-C', r, 'show', '36e9d53:' + file], text=True).split('\n')
            for l in subprocess.check_output(['git', '-C', r, 'diff', '-U0', '--', file], text=True).split('\n'):
                if l.startswith('-') and not l.startswith('---'):
                    rem += 1
                    if l[1:] not in base: mine += 1; print(d['id'], 'not original:', l)
        if rem == 0 or mine == rem: print(d['id'], 'changes no original lines')
        p = demo()
        if p.returncode == 0: print(d['id'], 'demo passes with the patch'); return False
        if 'build failed' in p.stdout: print(d['id'], p.stdout); return False
        b = stable(r)
        if b: print(d['id'], 'stable tests fail:', b); return False
        ok = True
        print(d['id'], 'confirmed:', [l for l in p.stdout.splitlines() if 'zz_demo' in l or 'RACE' in l or 'panic' in l][:1])
        return True
    finally:
        shutil.rmtree(w)
        if not ok: shutil.rmtree(out)
for f in sys.argv[1:]: make(f)
