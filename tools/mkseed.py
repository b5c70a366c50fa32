#!/usr/bin/env python3
"""Creates and verifies planted bugs from tools/seeds.py.

usage: mkseed.py [ID ...]      (re-)create, verify and store under /verif/seeded/<id>
       mkseed.py -t [ID ...]   run the quick check of the property against each bug
"""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
DEMO = r'''#!/bin/bash
# exit 0: property holds, 1: broken. Runs in /repo.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$(pwd)"
@PRE@printf '{"Replace":{@MORE@"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$R" "$D" > "$T/ov.json"
timeout 200 go test -vet=off -count=1 @FLAGS@ -overlay "$T/ov.json" -run '^TestZZDemo$' ./@PKG@ > "$T/out" 2>&1
rc=$?
tail -c 1500 "$T/out"
[ $rc -eq 0 ] && exit 0
exit 1
'''
LINEPRE = r'''# the table of classes is not part of the repository and has to be generated
mkdir "$T/etc"; cp "$D/LineBreak.txt" "$T/etc/"
go build -o "$T/gen" ./uax14/internal/generator && (cd "$T" && GOPATH="$T" ./gen > /dev/null 2>&1) || exit 3
'''
SCR = '/tmp/seedrepo'
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    sh('cp -a /repo %s' % SCR, '/'); sh('git checkout -q -- . && git clean -qfd', SCR)
ENV = dict(os.environ, PATH='/usr/local/go/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
def tests_pass():
    """runs the stable tests in the scratch copy"""
    sh('sed s#/repo#%s# /opt/vp/env.sh > /tmp/seedenv.sh' % SCR, '/')
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh('cp /opt/vp/env.sh /tmp/seedenv.sh; sed -i s#/repo#%s# /tmp/seedenv.sh; . /tmp/seedenv.sh; go vet -vettool= ./nothing 2>/dev/null; go test -count=1 -json $PKGS' % SCR, SCR, env=ENV)
    res = {}
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'): res[e['Package'] + '/' + e['Test']] = e['Action']
    names = base['stable']
    bad = [n for n in names if res.get(n) != 'pass']
    return bad, len(names)
def make(s):
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    fresh()
    with open(os.path.join(d, 'demo_test.go.txt'), 'w') as f: f.write(s['demo'].lstrip())
    with open(os.path.join(d, 'demo.sh'), 'w') as f: f.write(DEMO.replace('@PKG@', s['pkg']).replace('@FLAGS@', s.get('flags', '')).replace('@PRE@', LINEPRE if s['pkg'] == 'uax14' else '').replace('@MORE@', '"\'"$R/uax14/uax14classes.go"\'":"\'"$T/uax14classes.go"\'",' if s['pkg'] == 'uax14' else ''))
    if s['pkg'] == 'uax14':
        with open(os.path.join(V, 'data', 'lb.txt')) as i, open(os.path.join(d, 'LineBreak.txt'), 'w') as o:
            for l in i: a, b, k = l.split(); o.write('%04X..%04X;%s\n' % (int(a), int(b), k))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    r0 = sh('bash %s/demo.sh' % d, SCR)
    for file, old, new in s['edits']:
        p = os.path.join(SCR, file); t = open(p).read()
        assert t.count(old) == 1, (s['id'], file, 'occurs', t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', SCR).stdout
    b = sh('go build $(go list -e ./... | grep -v uax14$)', SCR, env=ENV)
    bad, n = tests_pass()
    r1 = sh('bash %s/demo.sh' % d, SCR)
    ok = r0.returncode == 0 and r1.returncode != 0 and not bad and b.returncode == 0
    print('%-22s %s demo(clean)=%d demo(bug)=%d build=%d failing tests: %s of %d' % (s['id'], 'OK ' if ok else 'NOT', r0.returncode, r1.returncode, b.returncode, bad[:3], n))
    if not ok:
        print(r0.stdout[-800:] if r0.returncode else '', '|', r1.stdout[-500:] if r1.returncode == 0 else '', b.stderr[-500:])
        if '-k' not in sys.argv: shutil.rmtree(d)
        return False
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return True
def test(i):
    """runs the quick check against a planted bug, in a scratch copy of /repo"""
    d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
    fresh(); r = sh('git apply %s/patch.diff' % d, SCR); assert r.returncode == 0, r.stderr
    r = sh('python3 check.py %s quick' % prop, V, env=dict(ENV, VERIF_REPO=SCR, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
    hit = r.returncode == 1 and 'VIOLATION property=%s ' % prop in r.stdout
    print('%-22s %s %s %s' % (i, prop, 'CAUGHT' if hit else 'MISSED (exit %d)' % r.returncode, '' if hit else (r.stdout[-300:] + r.stderr[-300:])))
    return hit
args = [a for a in sys.argv[1:] if not a.startswith('-')]
if '-t' in sys.argv:
    ids = args or sorted(os.listdir(os.path.join(V, 'seeded')))
    res = [test(i) for i in ids]
else:
    res = [make(s) for s in seeds.SEEDS if not args or s['id'] in args]
shutil.rmtree(SCR, ignore_errors=True)
print('%d of %d' % (sum(res), len(res)))
