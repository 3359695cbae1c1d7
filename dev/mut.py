#!/usr/bin/env python3
"""dev/mut.py CASES.py [name-substring]: applies textual edits to a scratch copy of /repo and runs the checks.
CASES.py defines CASES = [(name, kind, file, old, new, [checks])]; kind 'bug' (some check must fire) or 'ok' (all must stay quiet).
old/new may be lists of equal length (several edits)."""
import importlib.util
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo'


def one(args):
    k, c = args
    name, kind, file, old, new, checks = c
    d = '/tmp/mut/%d-%d' % (os.getpid(), k)
    os.makedirs(d)
    subprocess.run(['bash', '-c', 'cd %s && git ls-files -z | xargs -0 cp --parents -t %s' % (SRC, d)], check=True)
    try:
        olds = old if isinstance(old, list) else [old]
        news = new if isinstance(new, list) else [new]
        files = file if isinstance(file, list) else [file] * len(olds)
        for f, o, n in zip(files, olds, news):
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(o) < 1:
                return name, kind, 'EDIT-FAILED', ''
            open(p, 'w').write(s.replace(o, n, 1))
        out = []
        txt = ''
        for ck in checks:
            r = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), ck], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, NN_REPO=d, NN_BUILD='/tmp/mut/build', NN_LIMIT='240', NN_EVID='/tmp/mut/ev%d' % k))
            out.append((ck, r.returncode))
            if (kind == 'bug') != (r.returncode == 1) or r.returncode > 1:
                txt += r.stdout[-1500:]
            elif kind == 'bug':
                txt += '\n'.join(l for l in r.stdout.splitlines() if 'violated rule' in l)[:300]
        return name, kind, out, txt
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location('cases', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cs = [c for c in m.CASES if len(sys.argv) < 3 or any(a in c[0] for a in sys.argv[2:])]
    os.makedirs('/tmp/mut/build', exist_ok=True)
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for name, kind, out, txt in ex.map(one, enumerate(cs)):
            if out == 'EDIT-FAILED':
                st = 'EDIT-FAILED'
            elif kind == 'bug':
                st = 'caught' if any(r == 1 for _, r in out) else 'MISSED'
            else:
                st = 'quiet' if all(r == 0 for _, r in out) else 'ALARM' if any(r == 1 for _, r in out) else 'NOANSWER'
            if st not in ('caught', 'quiet'):
                bad += 1
            print('%-10s %-4s %s %s' % (st, kind, name, out))
            if st not in ('quiet',) and (st != 'caught' or os.environ.get('V')):
                print('      ' + txt.replace('\n', '\n      '))
    print('%d cases, %d unexpected' % (len(cs), bad))


main()
