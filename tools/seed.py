#!/usr/bin/env python3
"""Plant and confirm a bug: seed(id, property, needs, breaks, edits, pkg, test) writes seeded/<id>/ and confirms it
(builds, stable tests pass, demo passes without and fails with the change); detect(id) runs the property's check."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

DEMO = r'''#!/bin/bash
# runs the test beside this file inside package PKG of the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/PKGDIRzz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test -vet=off -count=1 FLAGS-overlay "$tmp/overlay.json" -run 'TestZZDemo' ./PKG
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def clean():
    sh('git', '-C', R, 'checkout', '--', '.')

def stable_missing():
    if sh('bash', '/opt/vp/build.sh').returncode:
        return ['BUILD FAILED']
    sh('bash', '/opt/vp/test.sh', '/tmp/seed_t.json')
    d = json.load(open('/tmp/seed_t.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    p = set(d['passed'])
    return [x for x in b['stable'] if x not in p]

def seed(id, prop, needs, breaks, edits, pkg, test, flags=''):
    assert not sh('git', '-C', R, 'status', '--short').stdout.strip(), '/repo is not clean'
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    pkg = pkg.strip('/').removeprefix('./')
    open(f'{d}/demo_test.go', 'w').write(test)
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('PKGDIR', pkg + '/' if pkg not in ('', '.') else '').replace('PKG', pkg or '.').replace('FLAGS', flags + ' ' if flags else ''))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    r0 = sh('bash', f'{d}/demo.sh', cwd=R)
    ok = r0.returncode == 0
    if not ok:
        print(id, 'DEMO FAILS ON CLEAN TREE', r0.stdout[-1500:], r0.stderr[-500:])
    try:
        for f, a, b in edits:
            p = f'{R}/{f}'; s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(f'{d}/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
        r1 = sh('bash', f'{d}/demo.sh', cwd=R)
        if r1.returncode == 0:
            ok = False; print(id, 'DEMO PASSES WITH THE CHANGE')
        m = stable_missing()
        if m:
            ok = False; print(id, 'STABLE TESTS FAIL', m)
        # at least one removed line must be a line of the original repository
        if not original():
            ok = False; print(id, 'CHANGES ONLY LINES ADDED BY OUR COMMITS')
        c = detect_here(prop)
        note(d, prop, c)
    finally:
        clean()
    print(id, prop, 'CONFIRMED' if ok else 'NOT-CONFIRMED', c, flush=True)
    return ok

def original():
    """whether the change in R removes or changes a line of the original repository (or only adds lines)"""
    base = sh('git', '-C', R, 'log', '--format=%H', '--invert-grep', '--grep=^fix:', '-1').stdout.strip()
    gone, old = [], set()
    for l in sh('git', '-C', R, 'diff', '-U0').stdout.splitlines():
        if l.startswith('--- a/'):
            old |= set(sh('git', '-C', R, 'show', f'{base}:{l[6:]}').stdout.splitlines())
        elif l.startswith('-') and l[1:].strip():
            gone.append(l[1:])
    return not gone or any(x in old for x in gone)

def note(d, prop, c):
    m = json.load(open(f'{d}/meta.json'))
    m['caught_by'] = prop if 'CAUGHT' in c else 'missed'
    json.dump(m, open(f'{d}/meta.json', 'w'), indent=1)

def detect_here(prop):
    r = sh('python3', f'{V}/check.py', prop, cwd=V)
    l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'PROBLEM' in x]
    return f'rc={r.returncode} ' + ('CAUGHT' if r.returncode == 1 and any(f'property={prop}' in x for x in l) else 'MISSED ' + r.stdout[-300:])

def detect(id):
    d = f'{V}/seeded/{id}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    r = sh('git', '-C', R, 'apply', f'{d}/patch.diff')
    if r.returncode:
        print(id, 'DOES NOT APPLY', r.stderr); return
    try:
        c = detect_here(prop)
        note(d, prop, c)
        print(id, prop, c, flush=True)
    finally:
        clean()

if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(f'{V}/seeded')):
        detect(i)
