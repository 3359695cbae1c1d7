"""OpenMP regions: which shared data each barrier phase reads and writes, under which protection, and whether the team stays together."""
from core import *
import effects as FX
UNITS = ['/verif/harness/astar.cpp', 'planner_cspace/src/distance_map.cpp']
EXPLANATION = ('Every parallel region of the repository is walked on its syntax tree. A forward dataflow gives the barriers each access may be the next one after; two accesses to overlapping '
               'shared storage that may follow the same barrier, at least one of them a write, need a common lock, a common single construct or separate elements. Effects of called functions are '
               'interprocedural summaries over access paths. Branches around barriers must be decided by data that is the same for the whole team.')
ASSUMPTIONS = ['distinct reference parameters do not designate overlapping objects', 'library containers: const members and element accessors do not modify the container']


def check(ctx):
    n = 0
    for f, s in regions(ctx.p):
        n += 1
        Region(ctx, f, s).run()
    ctx.need('parallel regions', n, 2)


def walk(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def regions(p):
    seen = set()
    for f in sorted(p.repo_funcs(), key=lambda f: (f.file, f.line, f.key)):
        for x in walk(f.body):
            if x.get('k') == 'omp' and x['d'].startswith('parallel') and 'body' in x:
                k = (f.file, x['l'], f.key)
                if k in seen:
                    continue
                seen.add(k)
                yield f, x


class Hit(object):
    __slots__ = ('a', 'R', 'locks', 'one', 'share', 'cond')


class Region(FX.Walker):
    def __init__(self, ctx, f, s):
        self.ctx = ctx
        self.region = s
        fx = FX.Effects(ctx.p, build.REPO.rstrip('/') + '/')
        FX.Walker.__init__(self, fx, f, self.sink1)
        self.hits = []
        self.R = frozenset([('start', s['l'])])
        self.locks = ()
        self.one = None
        self.share = None
        self.incond = None
        self.loops = []
        self.own = set()
        self.static = set()
        self.nonuni = set()
        self.deps = []
        self.forks = []
        self.where = '%s:%d (%s)' % (rel(f.file), s['l'], f.qn)

    def sink1(self, a):
        h = Hit()
        h.a, h.R, h.locks, h.one, h.share, h.cond = a, self.R, self.locks, self.one, self.share, self.incond
        self.hits.append(h)

    # ------------------------------------------------------------ structure
    def run(self):
        s = self.region
        for x in walk(self.f.body):
            # references and pointers made before the region
            if x is s:
                break
        self.before(self.f.body)
        self.hits = []
        for v in walk(s['body']):
            if v.get('k') == 'decl':
                for q in v['vars']:
                    self.own.add(q['id'])
                    if q.get('static'):
                        self.static.add(q['id'])
            if v.get('k') == 'rangefor':
                self.own.add(v['var']['id'])
            if v.get('k') == 'lambda':
                self.own |= set(q['id'] for q in v['params'])
                self.own |= set(c['id'] for c in v['caps'] if 'id' in c and 'init' in c)
            if v.get('k') in ('if', 'while') and 'var' in v:
                self.own.add(v['var']['id'])
            if v.get('k') == 'try':
                self.own |= set(h['var']['id'] for h in v['h'] if 'var' in h)
            if v.get('k') == 'var' and v.get('static'):
                self.static.add(v['id'])
        self.clauses(s)
        d = s['d']
        if d == 'parallel':
            self.flow(s['body'])
        elif d == 'parallel for':
            self.workshare(s, False)
        else:
            raise AnchorMissing('directive %s' % d)
        for q, x in self.fx.omp_seen:
            if q != self.f.qn and (x['d'] not in ('critical', 'atomic')):
                raise AnchorMissing('OpenMP directive %s in a function called from a parallel region' % x['d'])
        self.races()
        self.uniform()

    def before(self, s):
        """aliases of the variables visible in the region"""
        for x in walk(s):
            if x is self.region:
                continue
            if x.get('k') == 'decl':
                for v in x['vars']:
                    t = self.vt(v)
                    if t.get('c') == 'ref' and v.get('init'):
                        a = self.ex(v['init'], 'a')
                        if a:
                            self.env[v['id']] = a

    def clauses(self, s):
        for c in s.get('cl', ()):
            if c['n'] in ('private', 'firstprivate', 'lastprivate', 'reduction'):
                self.own |= set(c['v'])
            elif c['n'] not in ('schedule', 'nowait', 'shared', 'num_threads', 'default', 'if', 'proc_bind'):
                raise AnchorMissing('OpenMP clause %s' % c['n'])

    def barrier(self, s):
        self.R = frozenset([(s['d'], s['l'], id(s))])

    def flow(self, s):
        """walks a statement; self.R is the set of barriers it may be the first after"""
        if s is None:
            return
        k = s['k']
        if k == 'block':
            for x in s['a']:
                self.flow(x)
            return
        if k == 'omp':
            return self.omp(s)
        if k in ('break', 'continue'):
            if not self.loops:
                raise AnchorMissing('jump out of a parallel construct')
            self.loops[-1][k] |= self.R
            self.R = frozenset()
            return
        if k == 'return':
            if 'e' in s:
                self.ex(s['e'], 'r')
            self.R = frozenset()
            return
        if k == 'if':
            if 'init' in s:
                self.flow(s['init'])
            if 'var' in s:
                self.declare(s['var'])
            fork = self.diverges(s)
            self.branch(s['c'], fork)
            R = self.R
            self.flow(s['t'])
            Rt = self.R
            self.R = R
            if 'f' in s:
                self.flow(s['f'])
            self.R = self.R | Rt
            return
        if k in ('for', 'while', 'do', 'rangefor'):
            return self.loop(s)
        if k == 'switch':
            if 'init' in s:
                self.flow(s['init'])
            self.branch(s['c'], self.diverges(s))
            R0 = self.R
            self.loops.append({'break': set(), 'continue': set(), 'sw': True})
            self.flow(s['body'])
            b = self.loops.pop()
            if b['continue']:
                self.loops[-1]['continue'] |= b['continue']
            self.R = frozenset(self.R | R0 | b['break'])
            return
        if k in ('case', 'default', 'label'):
            if k != 'label' and self.loops:
                pass
            return self.flow(s['s'])
        if k == 'try':
            self.flow(s['body'])
            for h in s['h']:
                self.flow(h['body'])
            return
        self.stmt(s)

    def diverges(self, s):
        """the statement decides whether a barrier is reached"""
        for x in walk(s):
            if x.get('k') == 'omp' and x['d'] in ('barrier', 'single', 'for', 'sections'):
                return True
            if x.get('k') in ('break', 'continue', 'return') and self.loops and any(l.get('bar') for l in self.loops) and not self.share and not self.one:
                return True
        return False

    def branch(self, c, fork):
        self.incond = (c['l'], id(c)) if fork else None
        self.ex(c, 'r')
        if fork:
            self.forks.append((c, self.incond))
        self.incond = None

    def loop(self, s):
        if 'init' in s:
            self.flow(s['init']) if s['init']['k'] in FX.STM else self.ex(s['init'], 'r')
        if s['k'] == 'rangefor':
            src = self.ex(s['range'], 'r')
            t = self.vt(s['var'])
            if (t.get('c') == 'ref' or FX.handle_type(t)) and src:
                self.env[s['var']['id']] = set(src)
        bar = any(x.get('k') == 'omp' and x['d'] in ('barrier', 'single', 'for') for x in walk(s['body']))
        Rin = self.R
        out = frozenset()
        for it in range(6):
            n = len(self.hits)
            self.loops.append({'break': set(), 'continue': set(), 'bar': bar})
            self.R = Rin
            if s['k'] != 'do' and 'c' in s:
                self.branch(s['c'], bar)
            out = self.R if 'c' in s or s['k'] == 'rangefor' else frozenset()
            if 'var' in s and s['k'] == 'while':
                self.declare(s['var'])
            self.flow(s['body'])
            L = self.loops.pop()
            self.R = frozenset(self.R | L['continue'])
            if 'inc' in s and s['inc'] is not None:
                self.ex(s['inc'], 'r')
            if s['k'] == 'do':
                self.branch(s['c'], bar)
                out = self.R
            nxt = Rin | self.R
            out = frozenset(out | L['break'])
            if nxt == Rin and it >= 1:
                break
            Rin = frozenset(nxt)
        self.R = out

    def omp(self, s):
        d = s['d']
        cl = [c['n'] for c in s.get('cl', ())]
        nowait = 'nowait' in cl
        if d == 'barrier':
            self.barrier(s)
        elif d in ('critical', 'atomic'):
            save = self.locks
            self.locks = save + (('critical', s.get('nm', '')) if d == 'critical' else ('atomic', ''),)
            self.flow(s['body']) if s['body']['k'] in FX.STM else self.ex(s['body'], 'a')
            self.locks = save
        elif d in ('single', 'master', 'masked'):
            self.clauses(s)
            save = self.one, self.loops
            self.one = ('master', 0) if d != 'single' else ('single', s['l'], id(s))
            self.loops = []
            self.flow(s['body'])
            self.one, self.loops = save
            if d == 'single' and not nowait:
                self.barrier(s)
        elif d == 'for':
            self.workshare(s, nowait)
        elif d == 'flush':
            pass
        else:
            raise AnchorMissing('OpenMP directive %s' % d)

    def workshare(self, s, nowait):
        self.clauses(s)
        f = s['body']
        if f['k'] not in ('for', 'rangefor'):
            raise AnchorMissing('omp for on %s' % f['k'])
        var = f['init']['vars'][0] if f['k'] == 'for' and f['init']['k'] == 'decl' else f.get('var')
        save = self.share, self.loops
        self.share = (s['l'], id(s))
        self.loops = []
        if var is not None:
            self.itervars.add(var['id'])
            self.own.add(var['id'])
        elif f['k'] == 'for' and f['init']['k'] == 'expr' and f['init']['e']['k'] == 'asg' and f['init']['e']['a']['k'] == 'var':
            self.itervars.add(f['init']['e']['a']['id'])
            self.own.add(f['init']['e']['a']['id'])
        self.loop(f)
        self.share, self.loops = save
        if not nowait:
            self.barrier(s)

    # ------------------------------------------------------------ verdicts
    def shared(self, loc):
        h = loc[0]
        if h[0] == 'v':
            return h[1] not in self.own or h[1] in self.static
        return True

    def races(self):
        by = {}
        for h in self.hits:
            if self.shared(h.a.loc):
                k = (h.a.loc, h.a.w, h.R, h.locks, h.one, h.share)
                by.setdefault(h.a.loc[:2] if h.a.loc[0] == ('this',) else h.a.loc[:1], {}).setdefault(k, h)
        self.ctx.sites['shared objects in parallel regions'] = self.ctx.sites.get('shared objects in parallel regions', 0) + len(by)
        for key in sorted(by, key=str):
            root = key[0]
            hs = list(by[key].values()) + ([h for h in by.get(key[:1], {}).values()] if len(key) > 1 else [])
            bad = None
            nw = [h for h in hs if h.a.w]
            for a in nw:
                for b in hs:
                    if self.conflict(a, b):
                        bad = (a, b)
                        break
                if bad:
                    break
            nm = {'v': lambda: root[2], 'this': lambda: 'this', 'g': lambda: root[1], 'p': lambda: str(root)}[root[0]]()
            self.ctx.ob('shared-data-synchronised', bad is None, self.where,
                        '' if bad is None else '%s: write at %s and %s at %s may run at the same time' % (
                            '.'.join([nm] + [str(x) for x in bad[0].a.loc[1:]]), self.pos(bad[0]), 'write' if bad[1].a.w else 'read', self.pos(bad[1])),
                        fp='%s:%s' % (self.f.qn, nm))
        self.ctx.extra_funcs = getattr(self.ctx, 'extra_funcs', set()) | set([self.f.qn]) | set(self.ctx.p.funcs[k].qn for k in self.fx.memo)
        self.ctx.ob('region-analysed', True, self.where, '%d accesses, %d shared objects' % (len(self.hits), len(by)))

    def pos(self, h):
        return '%s:%s' % (rel(h.a.file), h.a.line)

    def conflict(self, a, b):
        la, lb = a.a.loc, b.a.loc
        n = min(len(la), len(lb))
        if la[:n] != lb[:n]:
            return False
        if not (a.R & b.R):
            return False
        if set(a.locks) & set(b.locks):
            return False
        if a.one is not None and a.one == b.one:
            return False
        if '[thread]' in la[:n] or ('[iter]' in la[:n] and a.share is not None and a.share == b.share):
            return False
        return True

    def uniform(self):
        """branches around barriers"""
        non = set()
        for h in self.hits:
            l = h.a.loc[0]
            if h.a.w and l[0] == 'v' and not self.shared(h.a.loc) and (h.share or h.one or h.locks):
                non.add(l[1])
        # values copied between private variables
        decls = [v for x in walk(self.region['body']) if x.get('k') == 'decl' for v in x['vars'] if v.get('init')]
        asgs = [x for x in walk(self.region['body']) if x.get('k') == 'asg' and x['a']['k'] == 'var']
        for _ in range(8):
            n = len(non)
            for v in decls:
                if self.tainted(v['init'], non):
                    non.add(v['id'])
            for x in asgs:
                if self.tainted(x['b'], non) and x['a']['id'] in self.own:
                    non.add(x['a']['id'])
            if len(non) == n:
                break
        seen = set()
        for c, k in self.forks:
            if k in seen:
                continue
            seen.add(k)
            t = self.tainted(c, non)
            self.ctx.ob('team-takes-same-branch', not t, '%s:%d (%s)' % (rel(self.f.file), c['l'], self.f.qn),
                        '' if not t else 'a branch around a barrier depends on %s, which differs between the threads' % t)

    def tainted(self, e, non):
        for x in walk(e):
            if x.get('k') == 'var' and x['id'] in non:
                return x['n']
            if x.get('k') == 'call' and self.ctx.p.decls.get(x.get('f'), {}).get('n') == 'omp_get_thread_num':
                return 'the thread number'
        return None
