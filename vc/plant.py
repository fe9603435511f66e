#!/usr/bin/env python3
"""development helper: plant(id, property, [(file, old, new)], flags, demo source, needs, breaks) writes /verif/seeded/<id> after confirming in a clone of /repo."""
import sys, os, json, subprocess
S = '/tmp/seedrepo'
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def plant(id_, prop, edits, flags, demo, needs, breaks, lib=None):
    run('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD' % (S, S))
    run('mkdir -p %s/_build; cp -u /repo/_build/libVc.a %s/_build/' % (S, S))
    d = '/verif/seeded/' + id_
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd is the repository after a build; exit 0: the property holds for the demonstrated inputs
d=$(cd "$(dirname "$0")" && pwd); o=$(mktemp -d) || exit 3
trap 'rm -rf "$o"' EXIT
%s -w -I. "$d/demo.cpp" _build/libVc.a -o "$o/demo" || exit 4
timeout 60 "$o/demo"
''' % flags)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r0 = run('bash %s/demo.sh' % d, cwd=S)
    for f, a, b in edits:
        p = S + '/' + f; s = open(p).read()
        assert s.count(a) == 1, (id_, f, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    if lib: print(run('cd %s && rm -f _build/libVc.a && mkdir -p _build && %s' % (S, lib)).stdout[-500:])
    r1 = run('bash %s/demo.sh' % d, cwd=S)
    open(d + '/patch.diff', 'w').write(run('git -C %s diff' % S).stdout)
    run('git -C %s checkout -q -- .' % S)
    ok = r0.returncode == 0 and r1.returncode not in (0, 4)
    print(id_, 'OK' if ok else 'NOT OK', r0.returncode, r1.returncode, '' if ok else (r0.stdout[-600:] + '\n---\n' + r1.stdout[-1500:]))
    return ok
