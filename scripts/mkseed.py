#!/usr/bin/env python3
"""mkseed.py FILE: makes planted bugs from a Python file with a list SEEDS of
dicts id, property, needs, what, edits [(file, old, new)], pkg, test (Go)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# Runs demo_test.go within a package of the repository.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$t/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "$t/overlay.json" -run '^TestPlanted' ./%(pkg)s
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.copytree('/repo', t + '/r')
    for f, old, new in s['edits']:
        p = os.path.join(t, 'r', f)
        x = open(p).read()
        assert x.count(old) == 1, (s['id'], f, old, x.count(old))
        open(p, 'w').write(x.replace(old, new))
    d = os.path.join('/verif/seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['gofmt', '-l', '.'], cwd=t + '/r')
    diff = subprocess.check_output(['git', 'diff'], cwd=t + '/r', text=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % s)
    open(d + '/demo_test.go', 'w').write(s['test'].lstrip())
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
