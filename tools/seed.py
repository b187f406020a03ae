#!/usr/bin/env python3
"""seed.py new <id> <property> <spec.py>   make /verif/seeded/<id> from a spec: EDITS=[(file, old, new)], NEEDS, BREAKS, FILES={name: text}
seed.py try <id> [checks...]               demo on the clean tree, then with the patch: build, tests, demo, checks; restores /repo"""
import json, os, subprocess, sys, shutil
V = '/verif/seeded'
R = os.environ.get('REPO', '/repo')                 # a copy of /repo, with scripts of its own that build and test it
VP = os.environ.get('VP', '/opt/vp')
def sh(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
DEMO = r'''#!/bin/bash
# builds what lies beside this file against the tree in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
if [ -f "$here/d.yaml" ]; then
  (cd "$repo/src" && PYTHONDONTWRITEBYTECODE=1 /opt/vrtgen-venv/bin/python -W ignore -m vrtgen.main cpp --dir "$tmp" --namespace ns "$here/d.yaml")
fi
mkdir "$tmp/out"
: > "$tmp/out/gen.inc"
for f in $(find "$tmp" -maxdepth 1 -name '*.hpp' | sort); do echo "#include \"$(basename "$f")\"" >> "$tmp/out/gen.inc"; done
cat "$tmp/out/gen.inc" "$here/demo.cpp" > "$tmp/out/demo_main.cpp"
g++ -std=c++20 -w -O1 -I"$repo/include" -I"$tmp" -I"$here" "$tmp/out/demo_main.cpp" $(find "$tmp" -maxdepth 1 -name '*.cpp') -o "$tmp/demo" -lpthread
"$tmp/demo"
'''
def new(id, prop, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    for f, old, nw in ns['EDITS']:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) >= 1, 'not found: ' + old
        k = ns.get('NTH', {}).get(f)
        if k is None:
            assert s.count(old) == 1, 'ambiguous %d: %s' % (s.count(old), old)
            s = s.replace(old, nw)
        else:
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + nw + old.join(parts[k + 1:])
        open(p, 'w').write(s)
    rc, diff = sh('git -C %s diff' % R)
    sh('git -C %s checkout -- .' % R)
    open(d + '/patch.diff', 'w').write(diff)
    files = dict(ns['FILES'])
    files.setdefault('demo.sh', DEMO)
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
def tryit(id, checks):
    d = os.path.join(V, id)
    prop = json.load(open(d + '/meta.json'))['property']
    rc, o = sh('bash %s/demo.sh' % d, cwd=R)
    print(id, prop, 'demo clean:', rc, '' if rc == 0 else o[-1500:])
    rc, o = sh('git -C %s apply %s/patch.diff' % (R, d))
    if rc:
        return print(o)
    try:
        rc, o = sh('bash %s/build.sh' % VP)
        print(' build', rc, '' if rc == 0 else o[-800:])
        rc, o = sh('bash %s/test.sh /tmp/seed.json' % VP)
        print(' tests', rc, o.strip().split('\n')[-1])
        rc, o = sh('bash %s/demo.sh' % d, cwd=R)
        print(' demo patched:', rc, o[-300:])
        for c in checks or [prop]:
            rc, o = sh('python3 check.py %s' % c, cwd='/verif', env=dict(os.environ, VT_REPO=R))
            print(' check', c, '->', rc, [l for l in o.split('\n') if l.startswith('VIOL')][:1], o[-300:] if rc != 1 else o[:400])
    finally:
        print(sh('git -C %s checkout -- .' % R)[1], end='')
if sys.argv[1] == 'new':
    new(*sys.argv[2:5])
    tryit(sys.argv[2], sys.argv[5:])
else:
    tryit(sys.argv[2], sys.argv[3:])
