"""Builds the exporter, the stub headers and the exported program from /repo's current
working tree.  Results are cached under /verif/.build keyed by content hashes."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('NN_BUILD', os.path.join(VERIF, '.build'))
REPO = os.environ.get('NN_REPO', '/repo')
CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'


class BuildError(Exception):
    pass


def sh(*a, **kw):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'nnexport.cpp')
    key = _h(_read(src))
    exe = os.path.join(BUILD, 'nnexport-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        r = sh('g++', '-O1', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
               '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '-L/usr/lib/llvm-18/lib', '-lLLVM-18')
        if r.returncode != 0:
            raise BuildError('exporter build failed:\n' + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe, key


def tree_files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('.git', '_build', '.build', 'test')]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def ensure_stubs():
    out = os.path.join(BUILD, 'stubs')
    cfgs = tree_files(REPO, ('.cfg',))
    gens = [os.path.join(VERIF, 'stubs', x) for x in ('gen_msgs.py', 'gen_cfg.py', 'msgs.spec')]
    key = _h(*[_read(p) for p in gens + cfgs])
    stamp = os.path.join(out, '.stamp')
    if not os.path.exists(stamp) or open(stamp).read() != key:
        os.makedirs(out, exist_ok=True)
        r = sh('python3', os.path.join(VERIF, 'stubs', 'gen_msgs.py'), out)
        if r.returncode:
            raise BuildError('gen_msgs: ' + r.stdout[-2000:])
        r = sh('python3', os.path.join(VERIF, 'stubs', 'gen_cfg.py'), REPO, out)
        if r.returncode:
            raise BuildError('gen_cfg: ' + r.stdout[-2000:])
        with open(stamp, 'w') as f:
            f.write(key)
    return out, key


def overlay():
    """clang rejects a use of a default argument before its class is complete, gcc accepts
    it: spell the argument out (same value) for the analysed copy."""
    p = os.path.join(REPO, 'planner_cspace/include/planner_cspace/blockmem_gridmap.h')
    try:
        s = open(p).read()
    except OSError:
        return []
    m = re.search(r'log2Recursive\(\s*const\s+size_t\s+\w+\s*,\s*const\s+size_t\s+\w+\s*=\s*(\w+)\s*\)', s)
    if not m:
        return []
    n = re.sub(r'(=\s*log2Recursive\()\s*(\w+)\s*\)', lambda k: k.group(1) + k.group(2) + ', ' + m.group(1) + ')', s)
    if n == s:
        return []
    q = os.path.join(BUILD, 'overlay-%s.h' % _h(n))
    if not os.path.exists(q):
        with open(q + '.tmp%d' % os.getpid(), 'w') as f:
            f.write(n)
        os.rename(q + '.tmp%d' % os.getpid(), q)
    return ['--map=%s=%s' % (p, q)]


def flags(stubs):
    inc = ['-I' + os.path.join(VERIF, 'stubs'), '-I' + stubs]
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d, 'include')
        if os.path.isdir(p):
            inc.append('-I' + p)
    return ['-std=c++17', '-fopenmp', '-DNDEBUG', '-w', '-resource-dir', CLANG_RES] + inc + \
        ['-I/usr/include/eigen3', '-I' + os.path.join(VERIF, 'spec')]


_pk = [None]


def repo_key():
    m = hashlib.sha256()
    for p in tree_files(REPO, ('.h', '.hpp', '.cpp', '.cc', '.c', '.cfg')):
        m.update(p.encode())
        m.update(_read(p))
    return m.hexdigest()


def export_unit(src):
    exe, tkey = ensure_tool()
    stubs, skey = ensure_stubs()
    if _pk[0] is None:
        m = hashlib.sha256()
        m.update(repo_key().encode())
        for p in tree_files(os.path.join(VERIF, 'stubs'), ('.h',)) + tree_files(os.path.join(VERIF, 'spec'), ('.h',)):
            m.update(_read(p))
        _pk[0] = m.hexdigest()
    key = _h(tkey, skey, _pk[0], src, _read(src))
    out = os.path.join(BUILD, 'x-' + key + '.json')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(exe, tmp, src, REPO + '/,' + os.path.join(VERIF, 'spec') + '/,' + os.path.join(VERIF, 'harness') + '/',
               *(overlay() + flags(stubs)))
        if r.returncode or not os.path.exists(tmp):
            raise BuildError('analysis front end failed on %s:\n%s' % (src, r.stdout[-3000:]))
        os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def gc():
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('x-')]
        fs.sort(key=os.path.getmtime)
        while sum(os.path.getsize(f) for f in fs) > 600 << 20 and time.time() - os.path.getmtime(fs[0]) > 900:
            os.unlink(fs.pop(0))
    except OSError:
        pass


def load(units):
    """units: paths relative to /repo or absolute"""
    from load import Program
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ensure_tool()
        ensure_stubs()
        srcs = [u if u.startswith('/') else os.path.join(REPO, u) for u in units]
        for s in srcs:
            if not os.path.exists(s):
                raise BuildError('missing source %s' % s)
        overlay()
        gc()
    export_unit(srcs[0])
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(export_unit, srcs))
    p = Program()
    for s, d in zip(srcs, ds):
        p.add(s, d)
    return p
