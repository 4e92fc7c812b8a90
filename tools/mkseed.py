#!/usr/bin/env python3
"""Plants bugs in a scratch copy and keeps them when they are real: mkseed.py SPEC.py

SPEC.py defines SEEDS: dicts with id, property, needs, breaks, edits=[(file, old, new)], pkg, test (Go test source with TestDemo*).
A seed is kept under /verif/seeded/<id> only when it builds, the stable tests pass, and the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys

ENV = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', HOME='/root')
COPY = '/tmp/seedcopy'
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file as a test of package ./%(pkg)s of the current directory.
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
exec go test -overlay "$tmp/overlay.json" -vet=off -count=1 %(race)s -timeout 120s -run 'TestDemo' ./%(pkg)s
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, env=ENV, capture_output=True, text=True, **k)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        if os.path.exists(COPY):
            shutil.rmtree(COPY)
        sh(f'cp -a /repo {COPY} && git -C {COPY} checkout -q -- . && git -C {COPY} clean -fdq')
        ok = True
        for f, old, new in s['edits']:
            p = f'{COPY}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit does not match once:', f, t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        d = f'/tmp/seednew/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        patch = sh(f'git -C {COPY} diff').stdout
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo_test.go', 'w').write(s['test'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], race='-race' if s.get('race') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('go build ./...', cwd=COPY)
        if b.returncode:
            print(s['id'], 'does not build', b.stderr[-800:]); continue
        bad = sh(f'{d}/demo.sh', cwd=COPY)
        good = sh(f'{d}/demo.sh', cwd='/repo')
        if good.returncode or not bad.returncode or 'build failed' in bad.stdout:
            print(s['id'], 'demo: clean', good.returncode, 'patched', bad.returncode, (good.stdout + good.stderr + bad.stdout)[-1500:]); continue
        t = sh('go test -json -vet=off -count=1 -timeout 10m ./...', cwd=COPY)
        passed, failed = set(), set()
        for line in t.stdout.splitlines():
            try: e = json.loads(line)
            except ValueError: continue
            if e.get('Test') and e['Action'] in ('pass', 'fail'):
                (passed if e['Action'] == 'pass' else failed).add(e['Package'] + '/' + e['Test'])
        missing = stable - passed
        if missing:
            print(s['id'], 'tests notice:', sorted(missing)[:4], len(missing)); continue
        dest = f'/verif/seeded/{s["id"]}'
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        print(s['id'], 'kept')
    for p in (COPY, '/tmp/seednew'):
        if os.path.exists(p):
            shutil.rmtree(p)

main()
