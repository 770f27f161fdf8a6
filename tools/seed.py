"""Makes /verif/seeded/<id>/ from a list of edits and demonstrations, checking
each in a scratch copy: the demonstration passes on the unchanged tree, the
change builds, the stable tests pass, and the demonstration fails with it.
usage: seed.py FILE.py [ID...]   (FILE.py defines PRELUDE and SEEDS)"""
import sys, os, re, json, subprocess, shutil, runpy
S = '/tmp/seedrepo'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod',
           GOPROXY='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# runs the test beside this file against the tree in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/internal/zdemo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 100s ./internal -run TestDemo
'''.replace('%%', '%')


def sh(cmd, **k):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    p = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '5m', './...'], cwd=S, env=ENV, stdout=subprocess.PIPE, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add((e['Package'], e['Test']))
    names = {str(x) for x in b}
    have = {p + '::' + t for p, t in ok} | {p + '/' + t for p, t in ok} | {p + '.' + t for p, t in ok} | {p + ':' + t for p, t in ok} | {p + ' ' + t for p, t in ok}
    return sorted(names - have)


def main():
    ns = runpy.run_path(sys.argv[1])
    want = set(sys.argv[2:])
    for sd in ns['SEEDS']:
        if want and sd['id'] not in want:
            continue
        shutil.rmtree(S, ignore_errors=True)
        sh(['cp', '-a', '/repo', S])
        d = '/verif/seeded/' + sd['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go', 'w').write(ns['PRELUDE'] + sd['demo'])
        sh(['gofmt', '-w', d + '/demo_test.go'])
        r = sh(['bash', d + '/demo.sh'], cwd=S)
        if r.returncode:
            print(sd['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:]); continue
        bad = False
        for f, old, new in sd['edits']:
            t = open(S + '/' + f).read()
            if t.count(old) != 1:
                print(sd['id'], 'EDIT MATCHES', t.count(old), old); bad = True
            open(S + '/' + f, 'w').write(t.replace(old, new))
        if bad:
            continue
        sh(['gofmt', '-w'] + [S + '/' + e[0] for e in sd['edits']])
        r = sh(['go', 'build', './...'], cwd=S)
        if r.returncode:
            print(sd['id'], 'NO BUILD', r.stdout[-800:]); continue
        r = sh(['bash', d + '/demo.sh'], cwd=S)
        if not r.returncode:
            print(sd['id'], 'DEMO PASSES WITH THE CHANGE'); continue
        why = [l for l in r.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:1]
        miss = stable()
        if miss:
            print(sd['id'], 'CAUGHT BY TESTS', miss[:3]); continue
        diff = sh(['git', 'diff'], cwd=S).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(sd['id'], 'OK', why)
    shutil.rmtree(S, ignore_errors=True)
    for x in os.listdir('/verif/seeded'):
        if not os.path.exists('/verif/seeded/%s/patch.diff' % x):
            shutil.rmtree('/verif/seeded/' + x); print('dropped', x)


main()
