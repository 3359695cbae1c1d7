"""Loads the exported program (all translation units merged)."""
import json
import build
import os
import re
import sys
sys.setrecursionlimit(20000)


def strip_targs(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and d == 0:
            m = re.match(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', s[i:])
            if m and (len(m.group(1)) > 1 or True):
                out.append('operator' + m.group(1))
                i += m.end()
                continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class TU(object):
    def __init__(self, name, d):
        self.name = name
        self.types = d['types']


class Func(object):
    __slots__ = ('key', 'qn', 'name', 'd', 'tu', 'file', 'line', 'params', 'body', 'inits', 'kind', 'const',
                 'virt', 'pure', 'cls', 'over', 'ret', 'static', 'defaulted', 'clsqn')

    def __repr__(self):
        return self.qn

    def where(self):
        return '%s:%d' % (self.file, self.line)


class Program(object):
    def __init__(self):
        self.funcs = {}
        self.decls = {}
        self.records = {}
        self.globals = {}
        self.by_qn = {}
        self.overriders = {}
        self.sub = None
        self.everywhere = {}
        self.tus = []

    def add(self, name, d):
        tu = TU(name, d)
        self.tus.append(tu)
        for k, o in d['decls'].items():
            if k not in self.decls:
                o['_tu'] = tu
                o['sqn'] = strip_targs(o['qn'])
                self.decls[k] = o
        for k, o in d['records'].items():
            r = self.records.get(k)
            if r is None or ('fields' in o and 'fields' not in r):
                o['_tu'] = tu
                o['name'] = k
                o['sqn'] = strip_targs(o['qn'])
                self.records[k] = o
        for k, o in d['globals'].items():
            if k not in self.globals or ('init' in o and 'init' not in self.globals[k]):
                o['_tu'] = tu
                self.globals[k] = o
        for k, o in d['funcs'].items():
            if k in self.funcs or 'body' not in o:
                continue
            # main() of each node
            f = Func()
            f.key = k
            f.d = o
            f.tu = tu
            f.qn = strip_targs(o['qn'])
            f.name = o['n']
            f.file = o['file']
            f.line = o['line']
            f.params = o['params']
            f.body = o['body']
            f.inits = o.get('inits')
            f.kind = o.get('kind', 'fn')
            f.const = o.get('const', False)
            f.virt = o.get('virt', False)
            f.pure = o.get('pure', False)
            f.cls = o.get('cls')
            f.clsqn = strip_targs(o['clsqn']) if o.get('clsqn') else None
            f.over = o.get('over', [])
            f.ret = o['ret']
            f.static = o.get('static', False)
            f.defaulted = o.get('defaulted', False)
            if f.name == 'main':
                k = '%s@%s' % (k, name)
                f.key = k
            self.funcs[k] = f
            self.by_qn.setdefault(f.qn, []).append(f)
            for ov in f.over:
                self.overriders.setdefault(ov, []).append(f)

    def derived(self):
        """record -> records that name it as a base"""
        if self.sub is None:
            self.sub = {}
            for k, r in self.records.items():
                for b in r.get('bases') or []:
                    b = r['_tu'].types[b].get('rec')
                    if b:
                        self.sub.setdefault(b, []).append(k)
        return self.sub

    def overridden_everywhere(self, key):
        """every class derived from the one declaring the pure function has an override whose body is loaded"""
        if key not in self.everywhere:
            have = set(f.cls for f in self.overriders.get(key, []))

            def ok(c):
                if c in have:
                    return True
                sub = self.derived().get(c)
                return bool(sub) and all(ok(x) for x in sub)
            self.everywhere[key] = ok(self.decls[key].get('cls'))
        return self.everywhere[key]

    def find(self, qn, pred=None, n=None):
        """all bodies with that template-argument-free qualified name"""
        r = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        return r

    def one(self, qn, pred=None):
        r = self.find(qn, pred)
        if not r:
            raise AnchorMissing('no function body for %s' % qn)
        return r[0]

    def record(self, sqn, pred=None):
        r = [x for x in self.records.values() if x['sqn'] == sqn and 'fields' in x and (pred is None or pred(x))]
        if not r:
            raise AnchorMissing('no record %s' % sqn)
        return r[0]

    def repo_funcs(self):
        return [f for f in self.funcs.values() if f.file.startswith(build.REPO.rstrip('/') + '/')]


class AnchorMissing(Exception):
    pass
