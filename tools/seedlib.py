#!/usr/bin/env python3
"""Planted-bug bookkeeping (development only; no check uses it).

tools/seedlib.py make [ID...]     write seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} from tools/seeds.py
tools/seedlib.py confirm [ID...]  patch applies, builds, stable tests pass, demo passes clean and fails patched
tools/seedlib.py catch [ID...]    run the property's check (or --all checks) against each planted bug
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(V, 'tools'))

DEMO = r'''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
mkdir -p "$t/shiva"
printf '%s\n' '#pragma once' @CONFIG@ > "$t/shiva/ShivaConfig.hpp"
ulimit -c 0
g++ -std=c++@STD@ @FLAGS@ -I"$PWD/include" -I"$t" "$here/demo.cpp" -o "$t/demo" || exit 1
timeout 60 "$t/demo" > "$t/out" 2> "$t/err"
rc=$?
head -c 2000 "$t/out"; head -c 2000 "$t/err"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, 'include/shiva', f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d matches of %r in %s' % (s['id'], t.count(old), old, f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', '-C', REPO, 'diff']).stdout
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    cfg = "'#define SHIVA_ENABLE_BOUNDS_CHECK'" if s.get('bounds') else ''
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('@CONFIG@', cfg).replace('@STD@', s.get('std', '17')).replace(
        '@FLAGS@', s.get('flags', '-O1')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    got = json.load(open('/tmp/seed_o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    names = set(x if isinstance(x, str) else x.get('id') or x.get('name') for x in stable)
    return sorted(names - set(got['passed']))


def demo(d):
    p = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')[-600:]


def confirm(i):
    d = os.path.join(V, 'seeded', i)
    rc0, o0 = demo(d)
    if rc0:
        return 'BAD demo fails on the clean tree: ' + o0
    p = sh(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
    if p.returncode:
        return 'BAD does not apply ' + p.stdout.decode()
    try:
        miss = tests()
        rc1, o1 = demo(d)
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    if miss:
        return 'BAD tests fail: %s' % miss[:4]
    if rc1 == 0:
        return 'BAD demo passes with the patch'
    return 'ok (demo rc %d: %s)' % (rc1, o1.strip()[-100:].replace('\n', ' | '))


def catch(i, props=None):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    p = sh(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
    if p.returncode:
        return 'does not apply'
    res = []
    try:
        for q in props or [prop]:
            r = sh(['./check.sh', q, '--tier', 'quick'], cwd=V, timeout=1200)
            o = r.stdout.decode(errors='replace')
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            res.append('%s rc=%d %s' % (q, r.returncode, v[0][:110] if v else ''))
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    return ' ; '.join(res)


if __name__ == '__main__':
    import seeds
    todo = sys.argv[2:]
    allp = '--all' in todo
    todo = [t for t in todo if not t.startswith('--')]
    assert not sh(['git', '-C', REPO, 'status', '--short']).stdout, '/repo is not clean'
    if sys.argv[1] == 'make':
        for s in seeds.S:
            if not todo or s['id'] in todo:
                make(s)
                print('made', s['id'])
    else:
        for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
            if not todo or i in todo:
                print(i, (confirm(i) if sys.argv[1] == 'confirm' else catch(i, ['C%02d' % k for k in range(1, 26)] if allp else None)), flush=True)
