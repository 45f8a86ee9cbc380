#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds/*.py (patch against /repo HEAD, demo, meta). mkseeds.py [id...]; --try builds
and runs the demo on both trees in scratch copies."""
import os, sys, json, subprocess, tempfile, shutil, glob, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = 'Apollo.cpp Config.cpp Dataset.cpp ModelFactory.cpp Region.cpp helpers/OutputFormatter.cpp helpers/Parser.cpp models/Random.cpp models/Static.cpp models/DatasetMap.cpp models/RoundRobin.cpp models/DecisionTree.cpp models/RandomForest.cpp models/PolicyNet.cpp models/impl/DecisionTreeImpl.cpp models/impl/RandomForestImpl.cpp models/Optimal.cpp timers/TimerSync.cpp'.split()
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
pids=()
i=0
for s in %(srcs)s; do
  i=$((i+1))
  %(cxx)s -std=c++14 -O1 -w %(flags)s -Iinclude -Isrc -Isrc/connectors/kokkos/include -c src/$s -o "$tmp/o$i.o" & pids+=($!)
done
%(cxx)s -std=c++14 -O1 -w %(flags)s -Iinclude -Isrc -Isrc/connectors/kokkos/include -c "$here/demo.cpp" -o "$tmp/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p || exit 98; done
%(cxx)s %(flags)s "$tmp"/*.o -o "$tmp/demo" -ldl -lpthread || exit 97
cd "$tmp" || exit 96
%(pre)s timeout 100 %(launch)s ./demo
'''
def gen(s):
    d = os.path.join(H, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % t, shell=True)
        subprocess.check_call(['git', 'init', '-q', t]); subprocess.check_call(['git', '-C', t, 'add', '-Af'])
        subprocess.check_call(['git', '-C', t, '-c', 'user.name=a', '-c', 'user.email=a@b', 'commit', '-qm', 'x'])
        for f, a, b in s['edits']:
            p = os.path.join(t, f); x = open(p).read()
            assert x.count(a) == 1, (s['id'], f, a, x.count(a))
            open(p, 'w').write(x.replace(a, b))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff']).decode())
    finally:
        shutil.rmtree(t)
    srcs = s.get('srcs', LIB)
    srcs = [x for x in srcs if x not in s.get('without', ())]
    open(d + '/demo.sh', 'w').write(SH % dict(srcs=' '.join(srcs), flags=s.get('flags', ''), pre=s.get('pre', ''),
                                              cxx=s.get('cxx', 'g++'), launch=s.get('launch', '')))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
def try_(s):
    d = os.path.join(H, 'seeded', s['id'])
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % t, shell=True)
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=t)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = r0.returncode == 0 and r1.returncode not in (0, 96, 97, 98, 99, 124)
        print(s['id'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode)
        if not ok: print(r0.stdout.decode()[-1500:], r1.stdout.decode()[-1500:])
    finally:
        shutil.rmtree(t)
seeds = []
for f in sorted(glob.glob(H + '/tools/seeds/*.py')):
    seeds += runpy.run_path(f)['SEEDS']
want = [a for a in sys.argv[1:] if not a.startswith('-')]
for s in seeds:
    if want and s['id'] not in want: continue
    gen(s)
    if '--try' in sys.argv: try_(s)
