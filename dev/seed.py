#!/usr/bin/env python3
"""dev/seed.py SPEC.py [name...]: makes and confirms the planted bugs of SPEC.py (SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, flags)]).
A bug is kept only if it builds, the existing tests pass with it, and its demonstration passes without and fails with it."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
W = '/tmp/seedwork'
SH = '''#!/bin/bash
# run in the repository root: exits 0 when the behaviour holds
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -r "$out"' EXIT
g++ -std=c++17 -O1 -g -fopenmp %s -Iplanner_cspace/include -Itrajectory_tracker/include -Itrack_odometry/include -I/usr/include/eigen3 \\
  %s "$here/demo.cpp" %s -o "$out/demo" -lboost_chrono -lboost_thread -lboost_system -lpthread || exit 2
cd "$out" && timeout 120 ./demo
'''


def sh(c, **kw):
    return subprocess.run(['bash', '-c', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree(d):
    os.makedirs(d)
    sh('cd %s && git ls-files -z | xargs -0 cp --parents -t %s' % (REPO, d))


def one(s):
    d = os.path.join(W, s['id'])
    tree(d)
    sd = os.path.join(VERIF, 'seeded', s['id'])
    try:
        for f, o, n in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(o) != 1:
                return s['id'], 'EDIT matches %d: %s' % (t.count(o), o[:60])
            open(p, 'w').write(t.replace(o, n))
        os.makedirs(sd, exist_ok=True)
        diff = ''
        for f in sorted(set(f for f, _, _ in s['edits'])):
            r = subprocess.run(['git', 'diff', '--no-index', os.path.join(REPO, f), os.path.join(d, f)], stdout=subprocess.PIPE, text=True)
            t = r.stdout.replace('a' + os.path.join(REPO, f), 'a/' + f).replace('b' + os.path.join(d, f), 'b/' + f)
            diff += t
        open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
        open(os.path.join(sd, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(sd, 'demo.sh'), 'w').write(SH % (s.get('flags', ''), '-I"$here/stub"' if s.get('files') else '', ' '.join(s.get('srcs', ()))))
        for n, c in s.get('files', {}).items():
            p = os.path.join(sd, 'stub', n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(c.lstrip('\n'))
        os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        r = sh('git apply --check ' + os.path.join(sd, 'patch.diff'), cwd=REPO)
        if r.returncode:
            return s['id'], 'PATCH ' + r.stdout
        r0 = sh('bash %s/demo.sh' % sd, cwd=REPO)
        r1 = sh('bash %s/demo.sh' % sd, cwd=d)
        b = sh('cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O2 -g" && ninja -k 0 -C %s/_build && cd %s/_build && ctest' % (d, d, d, d))
        msg = 'clean=%d patched=%d tests=%d' % (r0.returncode, r1.returncode, b.returncode)
        if r0.returncode == 0 and r1.returncode in (1, 134, 136, 139, 142) and b.returncode == 0:
            return s['id'], 'OK ' + msg
        return s['id'], 'REJECTED ' + msg + '\n' + r0.stdout[-700:] + r1.stdout[-300:] + (b.stdout[-1500:] if b.returncode else '')
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ss = [s for s in m.SEEDS if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, msg in ex.map(one, ss):
            print(i, msg)
            if not msg.startswith('OK'):
                p = os.path.join(VERIF, 'seeded', i)
                if os.path.isdir(p):
                    shutil.rmtree(p)


main()
