#!/usr/bin/env python3
"""dev/refactor/rf.py SEED DENSITY [check...]: applies a random set of behaviour-preserving edits to a copy of /repo and runs the checks, which must stay quiet.
A check that is not quiet is bisected to a small set of edits.  KINDS=a,b restricts the kinds, FILES=substr the files."""
import bisect
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, V + '/engine')
import build
EXE = '/tmp/rewrite'
SRC = '/repo'


def tool():
    src = HERE + '/rewrite.cpp'
    if not os.path.exists(EXE) or os.path.getmtime(EXE) < os.path.getmtime(src):
        subprocess.run(['g++', '-O1', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', EXE,
                        '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)


def units():
    out = []
    for d, ds, fs in os.walk(SRC):
        ds[:] = [x for x in ds if x not in ('.git', 'test', '_build')]
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    out += [V + '/dev/refactor/all.cpp']
    return sorted(out)


def candidates():
    os.makedirs(build.BUILD, exist_ok=True)
    build.ensure_tool()
    stubs, _ = build.ensure_stubs()
    args = build.flags(stubs)
    inc = ['-I/repo/planner_cspace/include']
    seen = {}

    def one(u):
        r = subprocess.run([EXE, u, SRC + '/'] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return r.stdout
    with ThreadPoolExecutor(8) as ex:
        for out in ex.map(one, units()):
            for l in out.splitlines():
                k, f, e = l.split('\t')
                o, n, h = e.split(':')
                f = os.path.normpath(f)
                if '/test/' in f or '/_build/' in f:
                    continue
                if f.endswith('blockmem_gridmap.h') and open(f, 'rb').read()[:int(o)].count(b'\n') < 90:
                    # constexpr member used in the class
                    continue
                key = (k, f, int(o), int(n))
                if key not in seen:
                    seen[key] = bytes.fromhex(h).decode('utf8', 'replace')
    return [k + (t,) for k, t in sorted(seen.items())]


def choose(cs, seed, density):
    rnd = random.Random(seed)
    kinds = os.environ.get('KINDS')
    cs = [c for c in cs if (not kinds or c[0] in kinds.split(',')) and os.environ.get('FILES', '') in c[1]]
    by = collections.defaultdict(list)
    for c in cs:
        by[c[0]].append(c)
    # every kind gets an equal chance
    order = []
    for k, l in by.items():
        rnd.shuffle(l)
        if k == 'iife-expr':
            l = l[:len(l) // 6]
        order += [(i / len(l) + rnd.random() * 0.3, c) for i, c in enumerate(l)]
    order.sort(key=lambda x: x[0])
    taken = collections.defaultdict(list)
    out = []
    for _, c in order[:int(len(order) * density)]:
        k, f, o, n, t = c
        if any(o < b and a < o + n for a, b in taken[f]):
            continue
        taken[f].append((o, o + n))
        out.append(c)
    return out


def apply(sel, d):
    """copy of the tree with the edits; per file the ranges of the new text"""
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(['bash', '-c', 'cd %s && git ls-files -z | xargs -0 cp --parents -t %s' % (SRC, d)], check=True)
    ranges = {}
    by = collections.defaultdict(list)
    for c in sel:
        by[c[1]].append(c)
    for f, l in by.items():
        l.sort(key=lambda c: c[2])
        b = open(f, 'rb').read()
        out, pos, rs, size = [], 0, [], 0
        for c in l:
            k, _, o, n, t = c
            out.append(b[pos:o])
            size += o - pos
            t = t.encode()
            out.append(t)
            rs.append((size, size + len(t), c))
            size += len(t)
            pos = o + n
        out.append(b[pos:])
        p = f.replace(SRC, d, 1)
        open(p, 'wb').write(b''.join(out))
        ranges[p] = rs
    return ranges


def compiles(sel, d):
    """drops edits that do not compile"""
    stubs, _ = build.ensure_stubs()
    for _ in range(40):
        ranges = apply(sel, d)
        fl = [x.replace(SRC + '/', d + '/') for x in build.overlay() + build.flags(stubs)]

        def one(u):
            if not u.startswith(SRC):
                return ''
            r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=200'] + [x for x in fl if not x.startswith('--map')] + [u.replace(SRC, d, 1)], stderr=subprocess.PIPE, text=True)
            return r.stderr if r.returncode else ''
        drop = set()
        with ThreadPoolExecutor(8) as ex:
            for err in ex.map(one, [u for u in units()]):
                for m in re.finditer(r'^(/tmp/\S+?):(\d+):(\d+): (?:error|note)', err, re.M):
                    f = os.path.normpath(m.group(1))
                    if f not in ranges:
                        continue
                    lines = open(f, 'rb').read().split(b'\n')
                    o = sum(len(x) + 1 for x in lines[:int(m.group(2)) - 1]) + int(m.group(3)) - 1
                    for a, b, c in ranges[f]:
                        if a <= o < b:
                            drop.add(c)
                if err and not drop:
                    print('cannot locate', err[-300:])
        if not drop:
            return sel
        sel = [c for c in sel if c not in drop]
    return sel


def check(c, d, tag):
    r = subprocess.run(['python3', V + '/check.py', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, NN_REPO=d, NN_BUILD='/tmp/rf/build', NN_LIMIT='400', NN_EVID='/tmp/rf/ev' + tag))
    return r.returncode, r.stdout


def sig(rc, out):
    if rc == 1:
        return 'ALARM'
    return 'NOANSWER'


def reduce(c, sel, tag, want):
    n = 2
    cur = list(sel)
    runs = 0
    while len(cur) > 1 and runs < 60:
        size = max(1, len(cur) // n)
        parts = [cur[i:i + size] for i in range(0, len(cur), size)]
        done = False
        for p in parts:
            runs += 1
            d = '/tmp/rf/b' + tag
            apply(p, d)
            rc, out = check(c, d, tag)
            if rc == want:
                cur, n, done = p, 2, True
                break
        if done:
            continue
        if n >= len(cur):
            break
        for p in parts:
            q = [x for x in cur if x not in p]
            runs += 1
            d = '/tmp/rf/b' + tag
            apply(q, d)
            rc, out = check(c, d, tag)
            if rc == want:
                cur, n, done = q, max(2, n - 1), True
                break
        if not done:
            n = min(len(cur), n * 2)
    return cur


def main():
    seed, density = int(sys.argv[1]), float(sys.argv[2])
    tool()
    os.makedirs('/tmp/rf', exist_ok=True)
    cs = candidates()
    print('%d candidates %s' % (len(cs), dict(collections.Counter(c[0] for c in cs))))
    sel = choose(cs, seed, density)
    d = '/tmp/rf/t%d' % seed
    sel = compiles(sel, d)
    apply(sel, d)
    print('%d edits %s' % (len(sel), dict(collections.Counter(c[0] for c in sel))), flush=True)
    checks = sys.argv[3:] or [x['property'] for x in json.load(open(V + '/MANIFEST.json'))['checks']]

    def one(c):
        rc, out = check(c, d, '%d-%s' % (seed, c))
        if rc == 0:
            return c, 0, '', []
        small = reduce(c, sel, '%d-%s' % (seed, c), rc)
        return c, rc, out, small
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex:
        for c, rc, out, small in ex.map(one, checks):
            if rc == 0:
                print('quiet', c)
                continue
            print('%s %s rc=%d with %d edits' % (sig(rc, out), c, rc, len(small)))
            for e in small[:6]:
                f = e[1]
                b = open(f, 'rb').read()
                print('    %s %s:%d' % (e[0], f, b[:e[2]].count(b'\n') + 1))
                print('      - ' + b[e[2]:e[2] + e[3]].decode()[:160].replace('\n', ' '))
                print('      + ' + e[4][:200].replace('\n', ' '))
            for l in out.splitlines():
                if 'violated rule' in l or 'BROKEN' in l or 'Error' in l:
                    print('    ' + l[:300])
            sys.stdout.flush()


main()
