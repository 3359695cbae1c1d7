"""Coupled bookkeeping of the grid search: every accepted relaxation updates cost grid, predecessor map and open
list together and consistently; the queue limit only ever drops open-list entries."""
from astar_lib import *
from p01 import path_fld, keycomp, same_comps, monos, coef, guard_terms
UNITS = UNIT
EXPLANATION = ('Guarded value-flow analysis of GridAstar::search. Obligations: for each store of a relaxed cost the '
               'predecessor store and the queue insertion happen under an equivalent gating condition with the same '
               'cell/cost; the candidate record\'s predecessor is the expanded cell and its priority is cost plus '
               'estimate of that cell; no other effect touches these structures; entries are dropped only under the limit.')


def check(ctx):
    for f in insts(ctx):
        R = run(ctx, f)
        I = R.I
        X = R.exp
        tag = '<%d,%d>' % (R.dim, R.non)
        ctx.need('relaxation stores ' + tag, len(X.apply))
        used = set()
        for e, (el, cpath), root in X.apply:
            key = e.loc.leaf.args[1]
            comps = keycomp(key, R.dim)
            # predecessor map
            pars = []
            for s in I.events:
                if s.kind == 'store' and s.loc.leaf is not None and s.loc.leaf.op == 'elem' and s.loc.leaf.args[0] is R.parloc:
                    if same_comps(keycomp(s.loc.leaf.args[1], R.dim), [leaf(c) for c in comps], AND(e.g, s.g)):
                        pars.append(s)
                        used.add(s.seq)
            both = OR(*[s.g for s in pars]) if pars else FALSE
            ctx.entail('predecessor-with-cost', e.g, both, at(e), 'a cost update without a predecessor update')
            ctx.entail('cost-with-predecessor', both, e.g, at(e), 'a predecessor update without the cost update')
            ppaths = set()
            for s in pars:
                vs = vcomp(I, s.val, R.dim) if isinstance(s.val, Node) else [comp2(I, s.val, i) for i in range(R.dim)]
                src = [elem_source(t) for v in vs for t in leaves(v)]
                ok = bool(src) and all(x and x[0] is el for x in src)
                ctx.ob('predecessor-same-record', ok, at(s), 'predecessor must come from the candidate record being applied')
                if ok:
                    pp = tuple(x for x in src[0][1] if isinstance(x, str) and x != 'e_')
                    ppaths.add(pp)
            # queue
            qs = [q for q in queue_pushes(R) if same_comps(comps, queue_record(R, q)[2], AND(e.g, q.g)) and sat(AND(e.g, q.g))]
            bq = OR(*[q.g for q in qs]) if qs else FALSE
            ctx.entail('queued-with-cost', e.g, bq, at(e), 'an improved cell is not queued for expansion')
            ctx.entail('cost-with-queued', bq, e.g, at(e), 'a queue entry without the cost update')
            for q in qs:
                used.add(q.seq)
                pr, raw, vec = queue_record(R, q)
                ctx.ob('queue-cost', equal_values(raw, e.val, AND(e.g, q.g)), at(q), 'queue entry must carry the cost written to the grid')
                psrc = [elem_source(t) for t in leaves(pr)]
                okq = all(x and x[0] is el for x in psrc)
                ctx.ob('queue-priority-same-record', okq, at(q), 'priority must come from the candidate record')
                if okq:
                    X.pri = psrc[0][1]
                    for c in pushes_to(R, root):
                        record(ctx, R, c, cpath, psrc[0][1], [t for t in ppaths], comps, el)
        # every other effect on the three structures
        for s in I.events:
            if s.kind == 'store' and s.loc is not None:
                for t in leaves(s.loc):
                    r, path = root_member(t)
                    if r is R.parloc and s.seq not in used:
                        ctx.ob('predecessor-only-by-relaxation', False, at(s), 'predecessor map written outside the relaxation step')
        fn, v, k = R.lt if queue_fields(R) else None
        this = mk('this')
        b = par(fn, 0)
        want = cmpv('<', leaf(mk('fld', b, k)), leaf(mk('fld', this, k)), False)
        ctx.ob('cheapest-first', equal_values(v, want), at(fn), 'open list must order the smallest priority first')
        # limit
        lim = limit_field(ctx, f)
        pb = [e for e in I.events if e.kind in ('call', 'pop') and e.obj is not None and e.name.split('::')[-1] in ('pop_back', 'erase', 'resize')
              and any(t is R.openloc for t in leaves(e.obj))]
        for e in pb:
            L = I.typed(I.freeze(I.read1(mk('fld', R.this, lim), State(e.g, e.mem))), {'c': 'int', 'sg': False, 'b': 64})
            ctx.entail('drop-only-with-limit', e.g, cmpv('>', L, numv(0), True), at(e), 'open-list entries dropped although no limit is set')
            szs = [t for t in guard_terms(e.g, 'call', None) if t.args[0].endswith('::size') and 'queue' in t.args[0]]
            ctx.ob('drop-only-above-limit', any(not sat(AND(e.g, NOT(cmpv('>', leaf(t), L, True)))) for t in szs), at(e),
                   'open-list entries dropped although the limit is not exceeded')
        ctx.need('drop sites ' + tag, len(pb), 0)
        setter_constructor(ctx, f, lim)
        fetch(ctx, R, tag)
        queue_class(ctx, R)


def fetch(ctx, R, tag):
    """entries leave the open list's front only after being read, and are then expanded, found to be the goal, or stale"""
    I = R.I
    from p03 import goal_cond, goal_comps, sizes
    on = lambda e: e.obj is not None and any(t is R.openloc for t in leaves(e.obj))
    pops = [e for e in I.events if e.kind == 'call' and e.name.endswith('priority_queue::pop') and on(e)]
    tops = [e for e in I.events if e.kind == 'call' and e.name.endswith('priority_queue::top') and on(e)]
    ctx.need('fetch sites ' + tag, len(pops))
    leave = par(R.f, 5)
    for e in pops:
        pre = [t for t in tops if t.loops == e.loops and t.seq < e.seq and not any(t.seq < p.seq < e.seq for p in pops)]
        if not ctx.ob('removed-entry-was-read', bool(pre) and not sat(AND(e.g, *[NOT(t.g) for t in pre])), at(e),
                      'an entry is removed from the front of the open list without being looked at'):
            continue
        use = [p for p in I.events if p.kind == 'push' and p.loops == e.loops and isinstance(unfreeze(p.args[0]), (N, Node))
               and any(t.op == 'call' and t.args[0].endswith('priority_queue::top') for t in subterms(p.args[0]) if isinstance(t, T))]
        done = OR(*[p.g for p in use]) if use else FALSE
        tp = [t for t in guard_terms(done, 'call', None) if t.args[0].endswith('priority_queue::top')] or \
             [t for p in use for t in terms_in(p.args[0], 'call') if t.args[0].endswith('priority_queue::top')]
        for t in set(tp):
            f = queue_fields(R)
            tc = [mk('elem', mk('fld', mk('fld', t, f[2]), 'e_'), num(i)) for i in range(R.dim)]
            done = OR(done, goal_cond(R, tc, goal_comps(R), sizes(R), leave))
        for x in I.events:
            pass
        if not tp:
            done = OR(done, FALSE)
        ctx.entail('removed-entry-is-used', e.g, done, at(e), 'an entry taken from the open list is dropped without being expanded')


def queue_class(ctx, R):
    """the open list container's own operations"""
    p = ctx.p
    fs = [f for f in p.funcs.values() if f.clsqn == RPQ]
    byname = {}
    for f in fs:
        byname.setdefault(f.name.split('::')[-1], []).append(f)
    for nm, kind in (('clear', 'clear'), ('pop_back', 'pop')):
        ctx.need('open list ' + nm, len(byname.get(nm, ())))
        for f in byname[nm]:
            I = ctx.interp()
            _, st = I.run(f)
            ev = [e for e in I.events if e.kind in ('clear', 'pop', 'push', 'insert', 'erase', 'resize') and e.obj is not None and
                  all(rootloc(t).op == 'this' for t in leaves(e.obj))]
            if nm == 'clear':
                ok = bool(ev) and not sat(AND(st.g, *[NOT(e.g) for e in ev if e.kind == 'clear']))
                ctx.ob('open-list-clear', ok, at(f), 'clearing must remove every entry')
            else:
                ok = len(ev) >= 1 and all(e.kind == 'pop' and e.name == 'pop_back' for e in ev) and len(ev) == 1
                ctx.ob('open-list-drop-leaf', ok, at(f), 'only the last element of the heap array may be dropped without reordering')


def comp2(I, v, i):
    return I.typed(I.freeze(I._getelem(I.getfld(v, 'e_'), num(i))), INT32)


def root_member(t):
    path = []
    while t.op in ('fld', 'elem'):
        if t.op == 'fld' and t.args[0].op == 'this':
            return t, path
        path.append(t.args[1])
        t = t.args[0]
    return t, path


def limit_field(ctx, f):
    s = [x for x in ctx.p.find(GA + '::setQueueSizeLimit') if x.cls == f.cls]
    ctx.need('limit setter', len(s))
    I = ctx.interp()
    _, st = I.run(s[0])
    fl = [e.loc.leaf.args[1] for e in I.events if e.kind == 'store' and e.loc.leaf is not None and e.loc.leaf.op == 'fld']
    if len(fl) != 1:
        raise AnchorMissing('limit member')
    v = I.read1(mk('fld', mk('this'), fl[0]), st)
    ctx.ob('limit-setter-stores-argument', v.leaf is not None and v.leaf.op == 'par', at(s[0]), 'the limit setter must store its argument')
    return fl[0]


def setter_constructor(ctx, f, lim):
    """every constructor starts without a limit and with a valid worker count"""
    cs = [x for x in ctx.p.funcs.values() if x.kind == 'ctor' and x.cls == f.cls and not x.defaulted
          and x.qn == GA + '::GridAstar' and not any(ctx_copy(x, p) for p in x.params)]
    ctx.need('search constructors', len(cs), 1)
    for c in cs:
        I = ctx.interp(opaque={GA + '::reset'})
        _, st = I.run(c)
        v = I.read1(mk('fld', mk('this'), lim), st)
        ctx.ob('no-limit-by-default', equal_values(I.freeze(v), numv(0)) if isinstance(v, N) else False, at(c), 'constructed search must have no queue limit')


def ctx_copy(fn, p):
    t = fn.tu.types[p['t']]
    return t.get('c') == 'ref' and fn.tu.types[t['pt']].get('rec') == fn.cls


def record(ctx, R, q, cpath, pripath, ppaths, comps, el):
    I = R.I
    v = unfreeze(q.args[0])
    cost = I.freeze(path_fld(v, cpath, I))
    pri = I.freeze(path_fld(v, [x for x in pripath], I))
    for cg, t in cases(cost):
        G = AND(q.g, cg)
        if not sat(G):
            continue
        cc = [c for c in monos(t) if c.op == 'call' and c.args[0] == GM + '::cost']
        if not cc:
            continue
        pc = keycomp(cc[0].args[2], R.dim)
        nc = keycomp(cc[0].args[3], R.dim)
        for pp in ppaths:
            pv = vcomp(I, path_fld(v, pp, I), R.dim)
            for i in range(R.dim):
                ctx.entail('predecessor-is-expanded-cell', G, eqv(pv[i], leaf(pc[i]), True), at(q),
                           'recorded predecessor must be the cell whose step cost was charged')
        for pg, x in cases(pri):
            H = AND(G, pg)
            if not sat(H):
                continue
            d = t_sub(x, t)
            ok = d.op == 'call' and d.args[0] == GM + '::costEstim' and \
                all(not sat(AND(H, NOT(eqv(leaf(a), leaf(b), True)))) for a, b in zip(keycomp(d.args[2], R.dim), nc))
            ctx.ob('priority-is-cost-plus-estimate', ok, at(q), 'priority minus cost is %s, must be the estimate of the recorded cell' % show(d)[:200])
