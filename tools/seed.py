#!/usr/bin/env python3
"""Creates and confirms planted bugs:  seed.py SPEC.py ...
SPEC.py defines: id, prop, edits=[(file, old, new)], srcs (repo sources the demo links), demo (C++ text), needs, breaks."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
S = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the guarantee holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r -- "$tmp"' EXIT
g++-9 -std=c++14 -msse4 -O1 %s-w -I"$PWD" "$here/demo.cpp" %s -o "$tmp/demo" %s || exit 2
timeout 60 "$tmp/demo"
'''
def prep():
    head = sh('git -C /repo rev-parse HEAD').stdout
    if not os.path.exists(S) or open(S + '.head').read() != head:
        shutil.rmtree(S, ignore_errors=True)
        sh('git clone -q /repo %s' % S)
        r = sh('cd %s && git -C /repo submodule status; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_C_COMPILER=gcc-9 -DCMAKE_CXX_COMPILER=g++-9 && ninja -C _build' % S)
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
        open(S + '.head', 'w').write(head)
    sh('cd %s && git checkout -q -- .' % S)
def run(spec):
    n = {'srcs': '', 'flags': '', 'libs': ''}
    exec(open(spec).read(), n)
    prep()
    d = os.path.join(V, 'seeded', n['id'])
    tmp = tempfile.mkdtemp()
    open(tmp + '/demo.cpp', 'w').write(n['demo'])
    open(tmp + '/demo.sh', 'w').write(DEMO % (n['flags'] + ' ' if n['flags'] else '', n['srcs'], n['libs']))
    r = sh('bash %s/demo.sh' % tmp, cwd=S)
    if r.returncode or 'error' in r.stdout: print(n['id'], 'demo fails on clean tree', r.returncode, r.stdout[-2000:]); return 1
    for f, o, w in n['edits']:
        t = open(S + '/' + f).read()
        if t.count(o) != 1: print(n['id'], 'edit matches', t.count(o), 'times in', f); return 1
        open(S + '/' + f, 'w').write(t.replace(o, w))
    diff = sh('git diff', cwd=S).stdout
    r = sh('ninja -C _build', cwd=S)
    if r.returncode: print(n['id'], 'does not build', r.stdout[-2000:]); return 1
    r = sh('ctest', cwd=S + '/_build')
    if r.returncode: print(n['id'], 'tests notice', r.stdout[-2000:]); return 1
    # test counts
    r = sh('bash %s/demo.sh' % tmp, cwd=S)
    if r.returncode == 0: print(n['id'], 'demo does not notice', r.stdout[-500:]); return 1
    sh('git checkout -q -- .', cwd=S)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': n['prop'], 'needs': n['needs'], 'what_it_breaks': n['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(n['id'], 'ok')
    return 0
sys.exit(max(run(s) for s in sys.argv[1:]))
