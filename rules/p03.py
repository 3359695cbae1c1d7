"""Search lifecycle: fresh state per search, no search on degenerate requests, success only when the goal (or the
leave threshold) was actually reached, abort honoured, path reconstruction follows predecessors and terminates."""
from astar_lib import *
from p01 import keycomp, same_comps, guard_terms
UNITS = UNIT
EXPLANATION = ('Guarded value-flow analysis of GridAstar::search and its path reconstruction: ordering and gating obligations on '
               'the reset effects, start registration, goal test, progress callback and predecessor walk.')


def goal_comps(R):
    en = par(R.f, 1)
    raw = [mk('elem', mk('fld', en, 'e_'), num(i)) for i in range(R.dim)]
    return raw


def eqgoal(R, comps, raw, size):
    """comps (terms) equal the goal wrapped into the grid"""
    out = []
    for i in range(R.dim):
        if i >= R.non:
            w = lift1c(lambda n: leaf(mkcyc(raw[i], n)), size[i])
            a = eqv(leaf(comps[i]), w, True)
        else:
            a = eqv(leaf(comps[i]), leaf(raw[i]), True)
        out.append(a)
    return AND(*out)


def mkcyc(x, n):
    r = mk('cycu', x, n)
    int_terms.add(r)
    return r


def sizes(R):
    return [R.I.typed(leaf(mk('elem', mk('fld', mk('fld', R.gloc, 'size_'), 'e_'), num(i))), INT32) for i in range(R.dim)]


def check(ctx):
    for f in insts(ctx):
        R = run(ctx, f)
        I = R.I
        X = R.exp
        tag = '<%d,%d>' % (R.dim, R.non)
        names = [p['n'] for p in f.params]
        ss, en, path, model, cb, leave = [par(f, i) for i in range(6)]
        best = par(f, 7)
        ssize = leaf(mk('fld', ss, '#size'))
        int_terms.add(ssize.leaf)
        raw = goal_comps(R)
        sz = sizes(R)
        # degenerate requests
        ctx.entail('no-start-no-path', AND(R.st.g, cmpv('<=', ssize, numv(0), True)), NOT(R.ret), at(f), 'a search without start states must fail')
        ctx.need('start registrations ' + tag, len(X.start))
        for e, s in X.start:
            comps = keycomp(e.loc.leaf.args[1], R.dim)
            rc = [c.args[0] if c.op == 'cycu' else c for c in comps]
            a = AND(*[eqv(leaf(x), leaf(y), True) for x, y in zip(rc, raw)])
            b = AND(*[eqv(leaf(x), leaf(mkcyc(y, z.leaf)) if i >= R.non else leaf(y), True)
                      for i, (x, y, z) in enumerate(zip(comps, raw, sz))])
            ok = not sat(AND(e.g, a)) or not sat(AND(e.g, b))
            ctx.ob('start-differs-from-goal', ok, at(e), 'a start state equal to the goal must end the search as failed')
        # reset before registration
        for what, loc, pred in (('cost grid', R.gloc, lambda e: e.name.endswith('Base::clear') or e.name.endswith('Gridmap::clear')),
                                ('predecessor map', R.parloc, lambda e: e.kind == 'clear'),
                                ('open list', R.openloc, lambda e: e.name.split('::')[-1] == 'clear')):
            cl = [e for e in I.events if e.kind in ('call', 'clear') and pred(e) and
                  ((e.obj is not None and any(t is loc for t in leaves(e.obj))) or (e.loc is not None and any(t is loc for t in leaves(e.loc))))
                  and not e.loops]
            for e, s in X.start:
                pre = [c for c in cl if c.seq < e.seq]
                ctx.entail('fresh-state', e.g, OR(*[c.g for c in pre]) if pre else FALSE, at(e), '%s must be cleared before start states are registered' % what)
            if what == 'cost grid':
                for c in cl:
                    ctx.ob('fresh-cost-is-max', equal_values(c.args[0], leaf(FMAX)), at(c), 'cleared cost must be the maximum value')
        # success requires the goal test
        fp = [e for e in I.events if e.kind == 'call' and e.name == R.opaque_path]
        ctx.need('path reconstruction calls ' + tag, len(fp), 2)
        out = [e for e in fp if any(path in subterms(a) for a in e.args[2:3])]
        ctx.need('path output calls ' + tag, len(out), 1)
        reached = []
        for e in out:
            K = e.args[1]
            for kg, k in cases(K):
                G = AND(e.g, kg)
                comps = keycomp(k, R.dim)
                cond = goal_cond(R, comps, raw, sz, leave)
                bestp = bvar(best)
                ctx.entail('path-only-to-goal', G, OR(cond, bestp), at(e), 'a path is produced although neither the goal was reached nor best effort requested')
        # return value: true only through a successful reconstruction from the reached goal
        for t in terms_in(R.ret, 'call', R.opaque_path):
            comps = None
            for a in t.args:
                pass
        G = AND(R.st.g, R.ret)
        calls_ = [t for t in (atoms[v] for v in dvars(R.ret)) if t.op == 'call' and t.args[0] == R.opaque_path]
        ctx.ob('success-is-reconstruction', bool(calls_) and not sat(AND(G, *[NOT(bvar(t)) for t in calls_])), at(f),
               'search may only succeed when the path reconstruction succeeds')
        for t in calls_:
            H = AND(G, bvar(t), *[NOT(bvar(u)) for u in calls_ if u is not t])
            K = t.args[3]
            for kg, k in (cases(K) if isinstance(K, N) else [(TRUE, K)]):
                ctx.entail('success-needs-goal', AND(H, kg), goal_cond(R, keycomp(k, R.dim), raw, sz, leave), at(f),
                           'search succeeds although neither goal nor leave threshold was reached')
        # abort
        cbs = [e for e in I.events if e.kind == 'callval' and cb in subterms(e.obj)]
        ctx.need('progress callback sites ' + tag, len(cbs))
        cand = [q for e, s, root in X.apply for q in pushes_to(R, root)]
        for e in cbs:
            for q in cand + [a[0] for a in X.apply]:
                if not all(l in q.loops for l in e.loops):
                    continue
                rs = [t for t in (atoms[v] for v in dvars(q.g)) if t.op == 'call' and t.args[0] == 'operator()' and cb in subterms(t.args[1])]
                G = AND(q.g, e.g)
                ctx.ob('abort-stops-search', (not sat(G)) or (bool(rs) and not sat(AND(G, *[NOT(bvar(r)) for r in rs]))), at(q),
                       'expansion continues after the progress callback refused')
        give_up(ctx, R, cbs, cb, raw, sz, leave)
        recon(ctx, R, tag)


def goal_cond(R, comps, raw, sz, leave):
    c = eqgoal(R, comps, raw, sz)
    for x in comps:
        tops = [t for t in terms_in(x, 'call') if t.args[0].endswith('priority_queue::top')]
        for t in tops:
            f = queue_fields(R)
            d = cmp_terms('<', t_sub(mk('fld', t, f[0]), mk('fld', t, f[1])), leave, False)
            c = OR(c, d)
            tc = [mk('elem', mk('fld', mk('fld', t, f[2]), 'e_'), num(i)) for i in range(R.dim)]
            # entries of the queue hold wrapped cells
            c = OR(c, AND(*[eqv(leaf(a), leaf(b), True) for a, b in zip(comps, tc)], eqgoal(R, tc, raw, sz)))
    return c


def give_up(ctx, R, cbs, cb, raw, sz, leave):
    """the search loop is left only when nothing is queued, the goal was fetched, or the callback refused"""
    I = R.I
    outer = []
    for e in R.exp.apply:
        for l in e[0].loops[:1]:
            if l not in outer:
                outer.append(l)
    ctx.need('search loop', len(outer))
    task = mk('fld', R.this, 'search_task_num_')
    for l in outer:
        for x in l.exits:
            if x is None or not sat(x.g):
                continue
            c = qsize_zero(R, x.g)
            refused = [t for t in (atoms[v] for v in dvars(x.g)) if t.op == 'call' and t.args[0] == 'operator()' and cb in subterms(t.args[1])]
            c = OR(c, *[NOT(bvar(t)) for t in refused])
            tops = [t for t in guard_terms(x.g, 'call', None) if t.args[0].endswith('priority_queue::top')]
            f = queue_fields(R)
            for t in tops:
                tc = [mk('elem', mk('fld', mk('fld', t, f[2]), 'e_'), num(i)) for i in range(R.dim)]
                c = OR(c, goal_cond(R, tc, raw, sz, leave))
            g = x.g
            for fd in scalars(R):
                t = mk('fld', R.this, fd)
                if t in [y for v in dvars(g) for y in subterms(atoms[v])]:
                    if fd != R.lim_field if hasattr(R, 'lim_field') else True:
                        g = AND(g, cmp_terms('>=', t, ONE, True))
            ctx.entail('gives-up-only-when-exhausted', g, c, '%s:%d' % (rel(l.file), l.line), 'the search ends although entries remain to be expanded')


def scalars(R):
    r = R.rec[R.f.cls]
    return [f['n'] for f in r['fields'] if r['_tu'].types[f['t']].get('c') == 'int']


def recon(ctx, R, tag):
    fs = [x for x in ctx.p.find(R.opaque_path) if x.cls == R.f.cls]
    ctx.need('path reconstruction ' + tag, len(fs))
    f = fs[0]
    I = ctx.interp()
    ret, st = I.run(f)
    ss, e, path = [par(f, i) for i in range(3)]
    pushes = [x for x in I.events if x.kind == 'push' and any(t is path for t in leaves(x.obj))]
    ctx.need('path growth ' + tag, len(pushes))
    for x in pushes:
        ctx.ob('path-grows-at-front', x.name.endswith('_front'), at(x), 'cells are found goal first and must be prepended')
        ok = len(x.loops) == 1
        ctx.ob('path-one-cell-per-step', ok, at(x))
        if not ok:
            continue
        L = x.loops[0]
        cur = vcomp(I, unfreeze(x.args[0]), R.dim)
        # the cell is the walk variable: starts at the requested end
        loc = walk_loc(I, L, cur)
        ok = loc is not None
        ctx.ob('path-cell-is-walk-variable', ok, at(x), 'each prepended cell must be the current walk cell')
        if not ok:
            continue
        init = vcomp(I, I.read1(loc, L.entry), R.dim)
        want = [mk('elem', mk('fld', e, 'e_'), num(i)) for i in range(R.dim)]
        ctx.ob('path-starts-at-end-cell', all(equal_values(a, leaf(b)) for a, b in zip(init, want)), at(x), 'walk must start at the requested end')
        # the push happens for every visited cell
        ctx.entail('path-has-every-cell', L.body_g, x.g, at(x), 'a visited cell may be missing from the path')
        # step
        if L.next is None:
            ctx.ob('path-step', False, at(x), 'walk never advances')
            continue
        nv = vcomp(I, I.read1(loc, L.next), R.dim)
        kc = [c.leaf for c in cur]
        pmap = mk('fld', mk('this'), R.m['parents'])
        for i in range(R.dim):
            ok = all(is_parent(t, kc, pmap, R.dim, i) for g, t in cases(nv[i]) if sat(AND(L.next.g, g)))
            ctx.ob('path-step-is-predecessor', ok, at(x), 'next walk cell must be the recorded predecessor of the current one')
        has = [t for t in guard_terms(L.next.g, 'elem', None)] if False else \
            [atoms[v] for v in dvars(L.next.g) if atoms[v].op == 'elem' and '#has' in show(atoms[v].args[0])]
        has = [t for t in has if keycomp(t.args[1], R.dim) == kc]
        ctx.ob('path-step-exists', bool(has) and not sat(AND(L.next.g, *[NOT(bvar(t)) for t in has])), at(x), 'walk must only follow an existing predecessor')
        er = [y for y in I.events if y.kind == 'erase' and L in y.loops and same_key(I, y, kc, R.dim)]
        ctx.entail('path-walk-terminates', L.next.g, OR(*[y.g for y in er]) if er else FALSE, at(x),
                   'each step must consume one predecessor entry, otherwise a cycle never ends')
        for y in er:
            ctx.ob('predecessors-kept', all(rootloc(t).op != 'this' for t in leaves(y.obj)), at(y), 'the stored predecessor map must not be consumed')
        # success
        rt = [y for y in I.events if y.kind == 'return']
        rt.append(None)
        G = AND(st.g, ret)
        cond = FALSE
        for l2 in I.loop_info:
            v = [mk('elem', mk('fld', mk('fld', mk('elem', ss, l2.ind), 'v_'), 'e_'), num(i)) for i in range(R.dim)]
            cond = OR(cond, AND(*[eqv(leaf(a), leaf(b), True) for a, b in zip(kc, v)]))
        for p in bool_phis(G):
            fc = flag_cause(I, p)
            if fc is not None and not sat(AND(fc[1], NOT(cond))):
                cond = OR(cond, bvar(p))
        ctx.entail('path-complete', G, cond, at(f), 'success reported before a start state was reached')


def same_key(I, y, kc, dim):
    a = y.args[0]
    if isinstance(a, N) and a.leaf is not None:
        return keycomp(a.leaf, dim) == kc
    return False


def walk_loc(I, L, cur):
    for l in L.phis:
        v = I.read1(l, L.head)
        try:
            c = vcomp(I, v, len(cur))
        except Exception:
            continue
        if all(a.leaf is b.leaf and a.leaf is not None for a, b in zip(c, cur)):
            return l
    return None


def is_parent(t, kc, par, dim, i):
    # par[vec(kc)].e_[i]
    if t.op != 'elem' or not (isnum(t.args[1]) and t.args[1].args[0] == i):
        return False
    x = t.args[0]
    if x.op == 'fld' and x.args[1] == 'e_':
        x = x.args[0]
    if x.op != 'elem':
        return False
    base = x.args[0]
    while base.op == 'phi':
        base = base.args[1]
    while base.op == 'fld' and str(base.args[1]).startswith('#'):
        base = base.args[0]
    return (base is par or base.op == 'var') and keycomp(x.args[1], dim) == kc
