"""Interprocedural read/write effects over access paths, on the exported AST.
A location is a tuple (root, step, step...): root ('v', id, name), ('this',), ('p', i) or ('g', name); steps are field names,
'[iter]' (element selected by the iteration of an omp for), '[thread]' (element of the own thread). Elements of a container are the container."""
from load import strip_targs

ALIASING = {'move', 'forward', 'max', 'min', 'ref', 'cref', 'addressof', 'next', 'prev', 'get', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend',
            'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'clamp'}
# non-const members that change nothing by themselves
ACCESSORS = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'rbegin', 'rend', 'data', 'operator*', 'operator->', 'get', 'find', 'top', 'cbegin', 'cend', 'lower_bound', 'upper_bound'}
ASSOC = {'std::map', 'std::unordered_map'}
MAXPATH = 5


def handle_type(t):
    """values of this type designate other storage"""
    if t.get('c') in ('ptr', 'ref'):
        return True
    q = t.get('qn') or ''
    return any(s in q for s in ('iterator', 'shared_ptr', 'reference', '_ptr<'))


class Access(object):
    __slots__ = ('loc', 'w', 'line', 'file', 'func')

    def __init__(self, loc, w, line, file, func):
        self.loc, self.w, self.line, self.file, self.func = loc, w, line, file, func

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)


class Walker(object):
    """effects of one function body"""

    def __init__(self, fx, func, sink):
        self.fx = fx
        self.p = fx.p
        self.f = func
        self.tu = func.tu
        self.env = {}
        self.sink = sink
        self.ret = set()
        self.itervars = set()
        self.depth = 0

    def ty(self, i):
        t = self.tu.types[i]
        return t

    def vt(self, v):
        return self.ty(v['t'])

    def hit(self, locs, w, line):
        for l in locs:
            self.sink(Access(l, w, line, self.f.file, self.f.qn))

    # ---- statements (order as written; a second pass makes aliases created later in a loop visible)
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        h = getattr(self, 's_' + k, None)
        if h:
            return h(s)
        if k in ('null', 'break', 'continue'):
            return
        if k == 'unsupported':
            raise NotImplementedError('statement %s' % s.get('cls'))
        for key in ('init', 'range'):
            if key in s:
                x = s[key]
                if isinstance(x, dict):
                    self.stmt(x) if x['k'] in STM else self.ex(x, 'r')
        if 'var' in s and isinstance(s['var'], dict) and k != 'rangefor':
            self.declare(s['var'])
        if k == 'rangefor':
            src = self.ex(s['range'], 'r')
            v = s['var']
            t = self.vt(v)
            if (t.get('c') == 'ref' or handle_type(t)) and src:
                self.env[v['id']] = set(src)
        for key in ('c', 'e', 'inc', 'v'):
            if key in s and isinstance(s[key], dict):
                self.ex(s[key], 'r')
        for key in ('t', 'f', 'body', 's'):
            if key in s and isinstance(s[key], dict):
                self.stmt(s[key])
        if k in ('for', 'while', 'do', 'rangefor') and self.depth < 3:
            # once more: aliases established late in the body
            self.depth += 1
            for key in ('c', 'inc'):
                if key in s and isinstance(s[key], dict):
                    self.ex(s[key], 'r')
            self.stmt(s['body'])
            self.depth -= 1

    def s_block(self, s):
        for x in s['a']:
            self.stmt(x)

    def s_decl(self, s):
        for v in s['vars']:
            self.declare(v)

    def s_expr(self, s):
        self.ex(s['e'], 'a')

    def s_return(self, s):
        if 'e' in s:
            isref = self.ty(self.f.ret).get('c') in ('ref', 'ptr') or handle_type(self.ty(self.f.ret))
            a = self.ex(s['e'], 'a' if isref else 'r')
            if isref:
                self.ret |= a

    def s_try(self, s):
        self.stmt(s['body'])
        for h in s['h']:
            self.stmt(h['body'])

    def s_omp(self, s):
        self.fx.omp_seen.append((self.f.qn, s))
        if 'body' in s:
            self.stmt(s['body'])

    def declare(self, v):
        i = v.get('init')
        t = self.vt(v)
        if i is None:
            return
        if t.get('c') == 'ref':
            a = self.ex(i, 'a')
            if a:
                self.env[v['id']] = a
            return
        if handle_type(t):
            a = self.ex(i, 'r')
            if a:
                self.env[v['id']] = self.env.get(v['id'], set()) | a
            return
        self.ex(i, 'r')

    # ---- expressions: returns the locations designated
    def ex(self, e, mode='r'):
        if e is None:
            return set()
        k = e['k']
        h = getattr(self, 'x_' + k, None)
        if h is None:
            if k in ('int', 'flt', 'str', 'null', 'zero', 'func', 'sizeof', 'unk'):
                return set()
            raise NotImplementedError('expression %s' % k)
        r = h(e, mode)
        return r if r is not None else set()

    def use(self, locs, e, mode):
        if mode in ('r', 'rw'):
            self.hit(locs, False, e['l'])
        if mode in ('w', 'rw'):
            self.hit(locs, True, e['l'])
        return locs

    def x_var(self, e, mode):
        if e['id'] in self.env:
            L = self.env[e['id']]
        else:
            L = {(('v', e['id'], e['n']),)}
        return self.use(L, e, mode)

    def x_glob(self, e, mode):
        return self.use({(('g', e['n']),)}, e, mode)

    def x_this(self, e, mode):
        return {(('this',),)}

    def step(self, locs, n):
        return set(l + (n,) if len(l) < MAXPATH else l for l in locs)

    def x_mem(self, e, mode):
        b = self.ex(e['b'], 'r' if e.get('arrow') and e['b']['k'] != 'this' else 'a')
        return self.use(self.step(b, e['n']), e, mode)

    def tag(self, i):
        """index that differs between the executions sharing the work"""
        if i['k'] == 'var' and i['id'] in self.itervars:
            return '[iter]'
        if i['k'] == 'cast':
            return self.tag(i['e'])
        if i['k'] == 'call' and self.p.decls.get(i.get('f'), {}).get('n') == 'omp_get_thread_num':
            return '[thread]'
        return None

    def x_idx(self, e, mode):
        b = self.ex(e['b'], 'a')
        self.ex(e['i'], 'r')
        t = self.tag(e['i'])
        if t:
            b = self.step(b, t)
        return self.use(b, e, mode)

    def x_un(self, e, mode):
        o = e['o']
        if o == '&':
            return self.ex(e['e'], 'a')
        if o == '*':
            L = self.ex(e['e'], 'r')
            return self.use(L, e, mode)
        if o in ('++', '--'):
            if self.ownvar(e['e'], e):
                return self.ex(e['e'], 'a')
            return self.ex(e['e'], 'rw')
        self.ex(e['e'], 'r')
        return set()

    def ownvar(self, x, e):
        """moving a pointer or iterator variable changes the variable, not what it designates"""
        if x['k'] != 'var' or self.ty(x['t']).get('c') == 'ref' or not handle_type(self.ty(x['t'])):
            return False
        self.hit({(('v', x['id'], x['n']),)}, True, e['l'])
        return True

    def x_bin(self, e, mode):
        a = self.ex(e['a'], 'r')
        b = self.ex(e['b'], 'r')
        if e['o'] == ',':
            return b
        # pointer arithmetic
        return (a if handle_type(self.ty(e['a']['t'])) else set()) | (b if handle_type(self.ty(e['b']['t'])) else set())

    def x_asg(self, e, mode):
        b = self.ex(e['b'], 'r')
        if e['a']['k'] == 'var' and handle_type(self.ty(e['a']['t'])) and e['o'] == '=':
            i = e['a']['id']
            self.hit({(('v', i, e['a']['n']),)}, True, e['l'])
            self.env[i] = self.env.get(i, set()) | b
            return set()
        return self.ex(e['a'], 'w' if e['o'] == '=' else 'rw')

    def x_cond(self, e, mode):
        self.ex(e['c'], 'r')
        return self.ex(e['a'], mode) | self.ex(e['b'], mode)

    def x_cast(self, e, mode):
        return self.ex(e['e'], mode)

    def x_list(self, e, mode):
        r = set()
        for x in e['a']:
            r |= self.ex(x, 'r')
        return set()

    def x_new(self, e, mode):
        for k in ('n', 'init'):
            if isinstance(e.get(k), dict):
                self.ex(e[k], 'r')

    def x_delete(self, e, mode):
        self.use(self.ex(e['e'], 'r'), e, 'w')

    def x_throw(self, e, mode):
        if 'e' in e:
            self.ex(e['e'], 'r')

    def x_arrcopy(self, e, mode):
        self.ex(e['e'], 'r')

    def x_stmtexpr(self, e, mode):
        self.stmt(e['s'])

    def x_lambda(self, e, mode):
        for c in e['caps']:
            if 'init' in c:
                self.ex(c['init'], 'r')
        save = self.ret
        self.stmt(e['body'])
        self.ret = save

    def x_ctor(self, e, mode):
        d = self.p.decls[e['f']]
        al = self.args(e, d, None, None)
        return al if handle_type(self.ty(e['t'])) else set()

    def x_call(self, e, mode):
        if 'f' not in e:
            self.ex(e['ce'], 'r')
            for a in e['a']:
                self.ex(a, 'r')
            return set()
        d = self.p.decls[e['f']]
        r = self.args(e, d, None, None)
        return self.use(r, e, mode) if e.get('v') else r

    def x_mcall(self, e, mode):
        if 'f' not in e:
            self.ex(e['obj'], 'r')
            for a in e['a']:
                self.ex(a, 'r')
            return set()
        d = self.p.decls[e['f']]
        if self.is_lambda(d):
            self.ex(e['obj'], 'a')
            for a in e['a']:
                self.ex(a, 'a')
            return set()
        O = self.ex(e['obj'], 'r' if e.get('arrow') and e['obj']['k'] != 'this' else 'a')
        if d['n'] in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator=') and self.ownvar(e['obj'], e):
            for a in e['a']:
                O = O | self.ex(a, 'r')
            i = e['obj']['id']
            if O:
                self.env[i] = self.env.get(i, set()) | O
            return O
        t = None
        if d['n'] in ('operator[]', 'at') and len(e['a']) == 1:
            t = self.tag(e['a'][0])
        if d['n'] in ('operator*', 'operator->') and e['obj']['k'] == 'var' and e['obj']['id'] in self.itervars:
            t = '[iter]'
        r = self.args(e, d, O, t)
        if not e.get('v') and not handle_type(self.ty(e['t'])):
            return set()
        return self.use(r, e, mode) if e.get('v') else r

    def is_lambda(self, d):
        return d['n'] == 'operator()' and (d.get('lambda') or 'lambda' in (d.get('cls') or '') or ')::' in d['sqn'])

    def args(self, e, d, O, tag):
        """effects of the call; the locations its result designates"""
        fs = self.fx.bodies(e['f'], e.get('qual'))
        al = [self.ex(a, 'a') for a in e['a']]
        r = set()
        opaque = not fs
        for f in fs:
            su = self.fx.summary(f)
            if su is None:
                opaque = True
                continue
            for a in su[0]:
                for l in self.subst(a.loc, O, al):
                    self.sink(Access(l, a.w, a.line, a.file, a.func))
            for l in su[1]:
                r |= self.subst(l, O, al)
        if opaque:
            for i, a in enumerate(e['a']):
                pt = self.fx.partype(d, i)
                self.hit(al[i], False, e['l'])
                if pt == 'w' and d['n'] not in ALIASING:
                    self.hit(al[i], True, e['l'])
            if O is not None:
                cq = strip_targs(d.get('clsqn') or '')
                w = not d.get('const') and not d.get('static')
                if d['n'] in ACCESSORS and not (d['n'] == 'operator[]' and cq in ASSOC):
                    w = False
                if tag:
                    O = self.step(O, tag)
                self.hit(O, False, e['l'])
                if w:
                    self.hit(O, True, e['l'])
                r |= O
            if d['n'] in ALIASING or d['n'].startswith('operator') or d.get('kind') == 'ctor':
                for a in al:
                    r |= a
        else:
            for i, a in enumerate(e['a']):
                if self.fx.partype(d, i) == 'v':
                    self.hit(al[i], False, e['l'])
            if tag:
                r = self.step(r, tag)
        return r

    def subst(self, loc, O, al):
        h = loc[0]
        if h == ('this',):
            base = O if O is not None else set()
        elif h[0] == 'p':
            base = al[h[1]] if h[1] < len(al) else set()
        elif h[0] == 'g':
            return {loc}
        else:
            return set()
        return set((b + loc[1:])[:MAXPATH] for b in base)


STM = {'block', 'decl', 'if', 'for', 'while', 'do', 'rangefor', 'switch', 'case', 'default', 'break', 'continue', 'return', 'try', 'null', 'label', 'omp', 'expr', 'unsupported'}


class Effects(object):
    def __init__(self, prog, root):
        self.p = prog
        self.root = root
        self.memo = {}
        self.omp_seen = []

    def bodies(self, key, qual):
        d = self.p.decls.get(key)
        fs = []
        f = self.p.funcs.get(key)
        if f is not None:
            fs.append(f)
        if d and d.get('virt') and not qual:
            fs += [x for x in self.overs(key) if x not in fs]
        return [f for f in fs if f.file.startswith(self.root)]

    def overs(self, key):
        out = list(self.p.overriders.get(key, []))
        for f in list(out):
            out += [x for x in self.overs(f.key) if x not in out]
        return out

    def partype(self, d, i):
        """'w' reference or pointer through which can be written, 'r' const reference, 'v' value"""
        ps = d.get('params')
        if ps is None or i >= len(ps):
            return 'r'
        t = d['_tu'].types[ps[i]['t'] if isinstance(ps[i], dict) else ps[i]]
        c = t.get('c')
        if c in ('ref', 'ptr'):
            return 'r' if d['_tu'].types[t['pt']].get('const') else 'w'
        return 'v'

    def summary(self, f):
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = (set(), set())        # recursion: effects found on the way are kept by the outer call
        acc = {}

        def sink(a):
            if a.loc[0][0] in ('this', 'p', 'g'):
                acc.setdefault((a.loc, a.w), a)
        w = Walker(self, f, sink)
        for i, q in enumerate(f.params):
            w.env[q['id']] = {(('p', i),)} if 'id' in q else set()
            t = f.tu.types[q['t']]
            if t.get('c') not in ('ref', 'ptr') and not handle_type(t):
                w.env.pop(q['id'], None)
        for it in (f.inits or ()):
            if isinstance(it.get('e'), dict):
                w.ex(it['e'], 'r')
        w.stmt(f.body)
        self.memo[f.key] = (list(acc.values()), w.ret)
        return self.memo[f.key]
