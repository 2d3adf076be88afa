#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds and validates planted bugs in a scratch copy of /repo.
SPEC defines SEEDS = [dict(id, property, file, old, new, main, needs, breaks)] (edits=[(file,old,new),...] also allowed)."""
import sys, os, subprocess, json, shutil, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedscratch'
def sh(cmd, cwd=None, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
DEMO = '''#!/bin/bash
# runs the program beside this file against the module in the current directory
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh; cd "$repo"
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
printf 'module demo\\n\\ngo 1.26.0\\n\\nrequire github.com/bantling/micro v0.0.0\\n\\nreplace github.com/bantling/micro => %s\\n' "$repo" > "$t/go.mod"
cd "$t" && go build -o demo . && timeout 60 ./demo
'''
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    shutil.rmtree(SCR, ignore_errors=True); os.makedirs(SCR)
    sh('cp -a /repo %s/repo' % SCR); R = SCR + '/repo'
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO.replace('go build -o', 'CGO_ENABLED=1 go build -race -o') if s.get('race') else DEMO)
    open(d + '/main.go.txt', 'w').write(s['main'])
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .', R)
    r = sh('bash %s/demo.sh' % d, R)
    if r.returncode != 0: print(s['id'], 'DEMO FAILS ON CLEAN', r.stdout[-800:]); continue
    bad = False
    for f, o, n in s.get('edits') or [(s['file'], s['old'], s['new'])]:
        t = open(R + '/' + f).read()
        if t.count(o) != s.get('count', 1): print(s['id'], 'old text occurs', t.count(o), 'times in', f); bad = True; break
        open(R + '/' + f, 'w').write(t.replace(o, n))
    if bad: continue
    open(d + '/patch.diff', 'w').write(subprocess.run('git diff', shell=True, cwd=R, stdout=subprocess.PIPE, text=True).stdout)
    r = sh('bash %s/demo.sh' % d, R)
    if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); continue
    if 'build' in r.stdout and 'FAIL' not in r.stdout and 'undefined' in r.stdout: print(s['id'], 'BUILD', r.stdout[-500:])
    last = r.stdout.strip().split('\n')[-1][:200]
    r = sh('. /opt/vp/env.sh; cd %s; go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1 | grep -v "no test files"' % R)
    fails = [l for l in r.stdout.split('\n') if l.startswith('FAIL') or '--- FAIL' in l]
    if r.returncode != 0 and not fails: fails = [r.stdout[-300:]]
    print(s['id'], 'OK' if not fails else 'TESTS FAIL: %s' % fails[:6], '|', last)
shutil.rmtree(SCR, ignore_errors=True)
