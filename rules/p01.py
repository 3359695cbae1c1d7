"""Relaxation rule of the grid search: value-flow obligations over every store into the cost grid and every
candidate record that can reach such a store, for each instantiation of the search."""
from astar_lib import *
UNITS = UNIT
EXPLANATION = ('Guarded value-flow analysis of GridAstar::search (all helpers inlined, loops as phi/induction terms). '
               'Obligations: the gating condition of each candidate record entails valid model cost/estimate, in-grid '
               'destination and improvement; record fields equal the required expressions; each application store is '
               'gated by a strict improvement.')


def path_fld(v, path, I):
    for f in path:
        v = I.getfld(v, f)
    return v


def check(ctx):
    for f in insts(ctx):
        R = run(ctx, f)
        I = R.I
        X = R.exp
        tag = '<%d,%d>' % (R.dim, R.non)
        ctx.need('relaxation stores ' + tag, len(X.apply))
        npush = 0
        for e, (el, cpath), root in X.apply:
            # strict improvement at the moment of the store
            cur = I.typed(I.freeze(I.read(e.loc, State(e.g, e.mem))), {'c': 'flt', 'b': 32})
            ctx.entail('improve-strictly', e.g, cmpv('<', e.val, cur, False), at(e), 'cost written to a cell must be below its current cost')
            # which record field is the position
            key = e.loc.leaf.args[1] if e.loc.leaf is not None else None
            ks = [elem_source(t) for t in (keycomp(key, R.dim) if key is not None else [])]
            okp = bool(ks) and all(k and k[0] is el for k in ks) and all(k[1][:-2] == ks[0][1][:-2] for k in ks) and \
                [k[1][-1] for k in ks] == [k[1][-1] for k in ks]
            if not ctx.ob('same-record', okp, at(e), 'cell written and cost written come from the same candidate record'):
                continue
            ppath = tuple(x for x in ks[0][1] if not isinstance(x, T))
            ppath = ppath[:-1] if ppath and ppath[-1] == 'e_' else ppath
            X.paths = (cpath, ppath)
            ps = pushes_to(R, root)
            npush += len(ps)
            for q in ps:
                candidate(ctx, R, q, cpath, ppath)
                complete(ctx, R, q, cpath, ppath)
            closing(ctx, R, ps)
        ctx.need('candidate records ' + tag, npush)
        sp = starts(ctx, R)
        ctx.need('start registrations ' + tag, sp)


def candidate(ctx, R, q, cpath, ppath):
    I = R.I
    v = unfreeze(q.args[0]) if len(q.args) == 1 else None
    if v is None:
        raise AnchorMissing('candidate record shape')
    cost = I.freeze(path_fld(v, cpath, I))
    pos = vcomp(I, path_fld(v, ppath, I), R.dim)
    nl = 0
    for cg, t in cases(cost):
        G = AND(q.g, cg)
        if not sat(G):
            continue
        nl += 1
        cc = [c for c in monos(t) if c.op == 'call' and c.args[0] == GM + '::cost']
        w = at(q)
        if not ctx.ob('cost-is-model-cost', len(cc) == 1 and coef(t, cc[0]) == 1, w,
                      'candidate cost %s must be expanded cost + model cost of the step' % show(t)[:200]):
            continue
        c = cc[0]
        base = t_sub(t, c)
        cn = leaf(c)
        ctx.entail('cost-valid', G, cmpv('>=', cn, numv(0), False), w, 'negative model cost must not be accepted')
        ctx.entail('cost-not-max', G, NOT(eqv(cn, leaf(FMAX))), w, 'maximum model cost must not be accepted')
        p, nxt = c.args[2], c.args[3]
        pc, nc = keycomp(p, R.dim), keycomp(nxt, R.dim)
        for i in range(R.dim):
            ctx.entail('cost-of-this-step', G, eqv(leaf(nc[i]), pos[i], True), w, 'model cost evaluated to the recorded cell')
        # estimate of the same cell, checked valid
        es = [x for x in guard_terms(G, 'call', GM + '::costEstim') if same_comps(keycomp(x.args[2], R.dim), pos, G)]
        okv = [x for x in es if not sat(AND(G, cmpv('<', leaf(x), numv(0), False))) and not sat(AND(G, eqv(leaf(x), leaf(FMAX))))]
        ctx.ob('estimate-valid', bool(okv), w, 'a negative or maximum estimate of the cell must not be accepted')
        # priority = cost + estimate
        # in grid
        for i in range(R.dim):
            if i < R.non:
                s = size_of(R, q, i)
                ctx.entail('in-grid', AND(G, cmpv('>=', s, numv(0), True)), AND(cmpv('>=', pos[i], numv(0), True), cmpv('<', pos[i], s, True)), w,
                           'dimension %d of the recorded cell must lie inside the map' % i)
            else:
                s = size_of(R, q, i)
                for g2, x in cases(pos[i]):
                    if not sat(AND(G, g2)):
                        continue
                    ok = x.op == 'cycu' and not sat(AND(G, g2, NOT(eqv(leaf(x.args[1]), s, True))))
                    ctx.ob('cyclic-normalised', ok, w, 'cyclic dimension %d must be wrapped with the grid size' % i)
        # expanded cell: cost base and predecessor belong to one queue entry that is not stale
        be = elem_source(base)
        pe = [elem_source(x) for x in pc]
        ok = be is not None and all(x is not None and x[0] is be[0] for x in pe)
        ctx.ob('expands-one-entry', ok, w, 'accumulated cost and position of the expanded cell come from one queue entry')
        if ok:
            gp = grid_reads(R, G, pc)
            ctx.ob('not-stale', any(not sat(AND(G, cmpv('>', leaf(base), leaf(x), False))) for x in gp), w,
                   'an entry whose cost exceeds the cell\'s cost must not be expanded')
            r = container_root(be[0])
            qs = pushes_to(R, r)
            ctx.need('expansion queue fills', len(qs))
            f = queue_fields(R)
            for b in qs:
                bv = b.args[0]
                ctx.ob('expands-queue-top', is_top(R, bv), at(b), 'expanded entries must be entries of the open list')
        # the step is one the model offers for this cell
        for i in range(R.dim):
            x = pos[i]
            for g2, y in cases(x):
                if not sat(AND(G, g2)):
                    continue
                z = y.args[0] if y.op == 'cycu' else y
                d = t_sub(z, pc[i])
                sg = [k for k in terms_in(d, 'call', GM + '::searchGrids')]
                ok = d.op == 'elem' and bool(sg) and all(keycomp(k.args[2], R.dim) == pc for k in sg)
                ctx.ob('step-offered-by-model', ok, at(q), 'step component %d must be an offset the model offers for the expanded cell' % i)
    ctx.need('candidate cost cases', nl)


def whole_loop(ctx, rule, l, why, loops):
    """the loop visits 0..n-1 without leaving early"""
    ind = l.ind
    ok = l.next is not None and not sat(AND(l.body_g, NOT(exists_other(l.next.g, loops))))
    ctx.ob(rule, ok, '%s:%d' % (rel(l.file), l.line), why)


def complete(ctx, R, q, cpath, ppath):
    """nothing that would improve a cell is left out: every entry that is not stale, every offered step, every improvement"""
    I = R.I
    if len(q.loops) < 2:
        raise AnchorMissing('candidate loop nest')
    li, lo = q.loops[-1], q.loops[-2]
    v = unfreeze(q.args[0])
    cost = I.freeze(path_fld(v, cpath, I))
    pos = vcomp(I, path_fld(v, ppath, I), R.dim)
    ind_ok = [l.ind for l in q.loops]
    for cg, t in cases(cost):
        G = AND(q.g, cg)
        if not sat(G):
            continue
        cc = [c for c in monos(t) if c.op == 'call' and c.args[0] == GM + '::cost']
        if len(cc) != 1:
            continue
        c = cc[0]
        base = t_sub(t, c)
        if base.op == 'num':
            continue
        pc = keycomp(c.args[2], R.dim)
        es = [x for x in guard_terms(G, 'call', GM + '::costEstim') if same_comps(keycomp(x.args[2], R.dim), pos, G)]
        rd = [x for x in all_grid_reads(R, G) if same_comps(keycomp(x.args[1], R.dim), pos, G)]
        gp = grid_reads(R, G, pc)
        if not es or not rd or not gp:
            ctx.ob('improvement-is-recorded', False, at(q), 'no comparison with the cost of the reached cell')
            continue
        ok = AND(li.body_g, cmp_terms('>=', c, ZERO, False), NOT(eq_num(c, FMAX)))
        for x in es:
            ok = AND(ok, cmp_terms('>=', x, ZERO, False), NOT(eq_num(x, FMAX)))
        for x in gp:
            ok = AND(ok, cmp_terms('<=', base, x, False), cmp_terms('>=', base, x, False))
        for x in rd:
            ok = AND(ok, cmp_terms('>', x, t, False))
        for i in range(R.non):
            s = size_of(R, q, i)
            ok = AND(ok, cmpv('>=', pos[i], numv(0), True), cmpv('<', pos[i], s, True), cmpv('>=', s, numv(0), True))
        ctx.entail('improvement-is-recorded', AND(ok, cg), q.g, at(q), 'a valid step that improves a cell is dropped')
        live = lo.body_g
        for x in gp:
            live = AND(live, cmp_terms('<=', base, x, False))
        ctx.entail('live-entry-is-expanded', live, li.entry_g, at(q), 'an entry that is not stale is not expanded')
    whole_loop(ctx, 'all-steps-examined', li, 'remaining steps of the expanded cell are skipped', ind_ok)
    whole_loop(ctx, 'all-entries-examined', lo, 'remaining fetched entries are skipped', ind_ok[:-1])


def all_grid_reads(R, g):
    acc = set()
    for v in dvars(g):
        for x in terms_in(atoms[v], 'elem'):
            b = x.args[0]
            if b.op == 'phi' and b.args[1] is mk('fld', R.gloc, '#elems') or b is R.gloc:
                acc.add(x)
    return sorted(acc, key=lambda x: x.id)


def closing(ctx, R, cands):
    """a cell is closed against later improvement only if expanding it recorded nothing"""
    I = R.I
    for e in R.exp.close:
        key = e.loc.leaf.args[1]
        src = [elem_source(t) for t in keycomp(key, R.dim)]
        if all(s is not None for s in src):
            root = container_root(src[0][0])
            ps = pushes_to(R, root)
            sites = [(p, p.g, vcomp(I, unfreeze(p.args[0]), R.dim)) for p in ps]
        else:
            sites = [(e, e.g, [leaf(t) for t in keycomp(key, R.dim)])]
        for p, g, pos in sites:
            ok = False
            for q in cands:
                li, lo = q.loops[-1], q.loops[-2]
                if lo not in p.loops or p.seq < q.seq:
                    continue
                for ph in bool_phis(g):
                    fc = flag_cause(I, ph)
                    if fc is None or fc[0] is not li:
                        continue
                    if not sat(AND(g, bvar(ph))) and not sat(AND(q.g, li.next.g, NOT(OR(bvar(ph), fc[1])))):
                        ok = True
                for ph in phis_of(g, li):
                    # counters and container sizes: unchanged since the loop was entered
                    try:
                        init = I.freeze(I.read1(ph.args[1], li.entry))
                        nv = I.freeze(I.read1(ph.args[1], li.next))
                    except Exception:
                        continue
                    if sat(AND(g, cmpv('!=', leaf(ph), init, True))):
                        continue
                    if not sat(AND(q.g, li.next.g, cmpv('<=', nv, leaf(ph), True))):
                        ok = True
            ctx.ob('closed-only-without-successor', ok, at(p), 'a cell is excluded from further improvement although its expansion recorded a successor')


def phis_of(g, l):
    acc = set()
    for v in dvars(g):
        for x in terms_in(atoms[v], 'phi'):
            if x.args[0] == l.id:
                acc.add(x)
    return sorted(acc, key=lambda x: x.id)


def size_of(R, e, i):
    v = R.I.read1(mk('fld', R.gloc, 'size_'), State(e.g, e.mem))
    return R.I.typed(R.I.freeze(R.I._getelem(R.I.getfld(v, 'e_'), num(i))), INT32)


def is_top(R, v):
    v = unfreeze(v)
    if isinstance(v, Node):
        v = v.base if v.base is not None and not v.kids and not v.arr else v
    if not isinstance(v, N):
        return False
    return all(t.op == 'call' and t.args[0].endswith('priority_queue::top') for t in leaves(v))


def monos(t):
    r = []
    for m, c in topoly(t).items():
        r.extend(a for a, p in m if p == 1 and len(m) == 1)
    return r


def coef(t, a):
    return topoly(t).get(((a, 1),), 0)


def guard_terms(g, op, name):
    acc = set()
    for v in dvars(g):
        for x in terms_in(atoms[v], op, name):
            acc.add(x)
    return sorted(acc, key=lambda x: x.id)


def grid_reads(R, g, comps):
    """grid reads in the guard at the given cell"""
    acc = []
    for v in dvars(g):
        for x in terms_in(atoms[v], 'elem'):
            b = x.args[0]
            if b.op == 'phi' and b.args[1] is mk('fld', R.gloc, '#elems') or b is R.gloc:
                if keycomp(x.args[1], R.dim) == list(comps):
                    acc.append(x)
    return sorted(set(acc), key=lambda x: x.id)


def same_comps(a, pos, G):
    return all(not sat(AND(G, NOT(eqv(leaf(x), y, True)))) for x, y in zip(a, pos))


def starts(ctx, R):
    """each start state enters grid and open list with its own cost, wrapped into the grid"""
    I = R.I
    n = 0
    for e, s in R.exp.start:
        key = e.loc.leaf.args[1] if e.loc.leaf is not None else None
        if key is None:
            raise AnchorMissing('start registration shape')
        n += 1
        comps = keycomp(key, R.dim)
        qs = [q for q in queue_pushes(R) if same_comps(comps, queue_record(R, q)[2], AND(e.g, q.g))
              and not sat(AND(e.g, NOT(q.g)))]
        if not ctx.ob('start-queued', bool(qs), at(e), 'a start state written to the grid must also be queued'):
            continue
        for q in qs:
            pr, raw, vec = queue_record(R, q)
            for pg, x in cases(sub(pr, raw)):
                if not sat(AND(e.g, q.g, pg)):
                    continue
                d = x.args[0] if x.op == 'trunc' else x
                ctx.ob('start-priority', d.op == 'call' and d.args[0] == GM + '::costEstim' and
                       same_comps(keycomp(d.args[2], R.dim), queue_record(R, q)[2], AND(e.g, q.g)), at(q),
                       'priority minus cost of a start state is %s, must be the estimate from it' % show(x)[:200])
            ctx.ob('start-cost', equal_values(raw, e.val, AND(e.g, q.g)), at(q), 'queue entry carries the start cost written to the grid')
        for i in range(R.dim):
            x = comps[i]
            if i >= R.non:
                ctx.ob('start-wrapped', x.op == 'cycu', at(e), 'cyclic dimension %d of a start state must be wrapped' % i)
    return n
