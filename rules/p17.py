"""Distance map: travel cost to the goal by relaxation, and incremental update after a change of the costmap."""
from core import *
from numlib import subst
from astar_lib import FMAX, elem_source, container_root, keycomp, unfreeze
from p01 import path_fld
from planlib import same_val, g_of
UNITS = ['planner_cspace/src/distance_map.cpp']
EXPLANATION = ('Guarded value-flow summaries of the four operations of the distance map over arbitrary maps, queues and parameters. Every store into the cost map, every entry put '
               'into a queue and every mark of an edge cell is compared with the relaxation rule; loops are judged by an arbitrary iteration, sums by induction.')
ASSUMPTIONS = ['real arithmetic', 'the rough costmap, the cost map and the parameters have the same planar size', 'update regions lie inside the map',
               'weights and the cost of one cell are not negative', 'the relaxation of a round is one thread\'s share (data races: P04)']
D = 'planner_cspace::planner_3d::DistanceMap'
THIS = mk('this')


class Map(object):
    pass


def model(ctx):
    M = Map()
    r = ctx.p.records[D]
    loc = lambda n: mk('fld', THIS, n)

    def fld(pred, what):
        return loc(field_of_type(ctx.p, r, pred, what))
    sq = lambda t: strip_targs(t.get('qn') or '')
    M.g = fld(lambda t: t.get('c') == 'rec' and 'Gridmap' in sq(t), 'cost map')
    M.goal = fld(lambda t: t.get('c') == 'rec' and 'CyclicVec' in sq(t), 'goal of the map')
    M.p = fld(lambda t: t.get('c') == 'rec' and sq(t) == D + '::Params', 'parameters')
    M.cc = fld(lambda t: t.get('c') == 'rec' and sq(t).endswith('CostCoeff'), 'weights')
    M.edges = fld(lambda t: t.get('c') == 'rec' and 'bool' in t.get('s', '') and 'vector' in t.get('s', ''), 'edge marks')
    M.diffs = fld(lambda t: t.get('c') == 'rec' and 'SearchDiffs' in t.get('s', '') and 'vector' in t.get('s', ''), 'steps')
    M.n = fld(lambda t: t.get('c') == 'int', 'number of tasks')
    M.rough = field_of_type(ctx.p, r, lambda t: t.get('c') == 'ref', 'rough costmap')
    M.queues = [loc(f['n']) for f in r['fields'] if 'priority_queue' in r['_tu'].types[f['t']].get('s', '')]
    ctx.need('queues', len(M.queues), 2)
    M.size = [mk('elem', mk('fld', mk('fld', M.p, 'size'), 'e_'), num(i)) for i in range(3)]
    for x in M.size:
        int_terms.add(x)
        add_fact(x, x)
    M.ec = mk('elem', mk('fld', mk('fld', M.p, 'euclid_cost'), 'e_'), num(0))
    add_fact(M.ec, M.ec)
    fs = [f for f in ctx.p.funcs.values() if f.cls == D and f.kind != 'ctor' and f.params and
          any('priority_queue' in f.tu.types[x['t']].get('s', '') for x in f.params)]
    if len(fs) != 1:
        raise AnchorMissing('relaxation of the distance map: %d candidates' % len(fs))
    M.fill = fs[0]
    M.fq = [i for i, x in enumerate(M.fill.params) if 'priority_queue' in M.fill.tu.types[x['t']].get('s', '')][0]
    M.fs = [i for i, x in enumerate(M.fill.params) if 'CyclicVec' in M.fill.tu.types[x['t']].get('s', '') or
            'Vec' in M.fill.tu.types[x['t']].get('s', '') and i != M.fq]
    if len(M.fs) != 1:
        raise AnchorMissing('start cell of the relaxation')
    M.fs = M.fs[0]
    return M


def comps(I, v):
    arr = I.getfld(v, 'e_')
    return [I.typed(I.freeze(I._getelem(arr, num(i))), INT32) for i in range(3)]


def vec_of(I, v):
    """vector argument (frozen) as components"""
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'vec':
        return [leaf(x) for x in v.leaf.args]
    return comps(I, unfreeze(v))


def qstate(I, st, O):
    v = I.freeze(I.read(O, st))
    if isinstance(v, N) and v.leaf is not None:
        return v.leaf
    t = mk('after', I.fresh(), 'queue')
    I.write(O, leaf(t), st)
    return t


def qop(I, st, e, d, O, obj):
    if O is None:
        O = I.lval(obj, st)
    n = d['n']
    t = qstate(I, st, O)
    if n == 'top':
        return leaf(mk('qtop', t))
    if n in ('size', 'empty'):
        z = mk('qsize', t)
        int_terms.add(z)
        add_fact(z, z)
        return leaf(z) if n == 'size' else cmp_terms('<=', z, ZERO, True)
    vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
    I.emit('queue', n, st, e['l'], args=vs, obj=O, decl=d, val=leaf(t))
    I.write(O, leaf(mk('after', I.fresh(), 'queue')), st)
    return None


def hooks(M, own=True):
    h = {}
    for c in (RPQ, 'std::priority_queue'):
        for n in ('push', 'emplace', 'pop', 'clear', 'top', 'size', 'empty'):
            h[c + '::' + n] = qop

    def exceeded(I, st, e, d, O, obj):
        if O is None:
            O = I.lval(obj, st)
        a, b = comps(I, I.read(O, st)), comps(I, I.read(I.lval(e['a'][0], st), st) if e['a'][0].get('v') else I.rv(e['a'][0], st))
        g = FALSE
        for i in range(2):
            g = OR(g, cmpv('<', a[i], numv(0), True), cmpv('>=', a[i], b[i], True))
        return g

    def gsize(I, st, e, d, O, obj):
        return ('L', leaf(mk('fld', M.p, 'size')))
    h[VEC + '::isExceeded'] = exceeded
    for c in ('planner_cspace::BlockMemGridmap', 'planner_cspace::BlockMemGridmapBase'):
        h[c + '::size'] = gsize

    def getcost(I, st, e, d, O, obj):
        cs = vec_of(I, I.freeze(I.argval(e['a'][0], st)))
        return liftn(lambda xs: mk('remembered', mk('vec', *xs)), cs)
    for c in ('CostmapBBF', 'CostmapBBFImpl', 'CostmapBBFNoOp'):
        h['planner_cspace::planner_3d::' + c + '::getCost'] = getcost

    def bit(I, st, e, d, O, obj):
        tb = lambda t: bvar(t) if t.op not in ('true', 'false', 'num') else (FALSE if t.op == 'false' or t is ZERO else TRUE)
        target = lambda t: lift1(tb, I.freeze(I.read1(t.args[0], st))) if t.op == 'addr' else tb(t)
        if O is None:
            O = I.lval(obj, st) if obj.get('v') else lift1(lambda t: leaf(t.args[0] if t.op == 'addr' else t), I.freeze(I.rv(obj, st)))
        return lift1(target, I.freeze(I.read(O, st)))
    h['std::_Bit_reference::operator bool'] = bit

    def reset(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st)
        I.emit('call', 'grid-reset', st, e['l'], args=tuple(I.freeze(I.argval(a, st)) for a in e['a']), obj=w, decl=d)
        return None
    h['planner_cspace::BlockMemGridmap::reset'] = reset
    if own:
        def fill(I, st, e, d, O, obj):
            q = I.lval(e['a'][M.fq], st)
            s = I.freeze(I.argval(e['a'][M.fs], st))
            I.emit('fill', 'fill', st, e['l'], args=(s,), obj=q, decl=d)
            k = I.fresh()
            for l in (M.g, M.edges) + tuple(t for g, t in cases(q)):
                I.write1(l, leaf(mk('after', k, 'fill', l)), st, None)
            return None
        h[M.fill.qn] = fill

        def create(I, st, e, d, O, obj):
            vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
            I.emit('create', 'create', st, e['l'], args=vs, decl=d)
            k = I.fresh()
            for l in (M.g, M.edges, M.goal) + tuple(M.queues):
                I.write1(l, leaf(mk('after', k, 'create', l)), st, None)
            return None
        h[D + '::create'] = create
    return h


def run(ctx, M, name, drop=()):
    f = ctx.p.one(D + '::' + name) if isinstance(name, str) else name
    h = hooks(M, f is not M.fill)
    for n in drop:
        h.pop(n, None)
    I = ctx.interp(hooks=h, container_index=GRID)
    r, st = I.run(f)
    return f, I, st


def record(ctx, I, e):
    """(ordering key, cost, cell) of an entry put into a queue"""
    if len(e.args) == 1:
        v = unfreeze(e.args[0])
        return I.freeze(I.getfld(v, 'p_')), I.freeze(I.getfld(v, 'p_raw_')), vec_of(I, I.getfld(v, 'v_') if not isinstance(v, N) else I.getfld(v, 'v_'))
    cs = [c for c in ctx.p.funcs.values() if c.kind == 'ctor' and strip_targs(c.cls or '').endswith('::PriorityVec') and len(c.params) == len(e.args) and
          '<3, 2>' in (c.cls or '').replace('3,2', '3, 2')]
    if len(cs) != 1:
        raise AnchorMissing('constructor of the queue entry: %d' % len(cs))
    J = Interp(ctx.p)
    J.hooks = I.hooks
    o = mk('newobj')
    _, st = J.run(cs[0], this=o, args=list(e.args))
    rd = lambda n: J.read1(mk('fld', o, n), st)
    v = rd('v_')
    fz = J.freeze(v)
    return J.freeze(rd('p_')), J.freeze(rd('p_raw_')), vec_of(I, fz) if isinstance(fz, N) else comps(J, v)


def is_g(M, t):
    """reads a cell of the cost map"""
    if t.op != 'elem':
        return False
    b = t.args[0]
    return b is M.g or b.op == 'phi' and b.args[1] in (M.g, mk('fld', M.g, '#elems')) or b.op == 'after' and b.args[-1] is M.g


def g_reads(M, g, cell):
    """reads of the cost of a cell (components) in a guard"""
    out = set()
    for v in dvars(g):
        for x in terms_in(atoms[v], 'elem'):
            if is_g(M, x) and all(a is b for a, b in zip(keycomp(x.args[1], 3)[:2], cell[:2])):
                out.add(x)
    return sorted(out, key=lambda x: x.id)


def one_leaf(v, g=TRUE):
    """the only possible value"""
    ts = [t for c, t in cases(v) if sat(AND(c, g))]
    return ts[0] if len(ts) == 1 else None


def leafs(vs, g=TRUE):
    ts = [one_leaf(v, g) for v in vs]
    return ts if all(t is not None for t in ts) else None


def outside(M, c):
    g = FALSE
    for i in range(2):
        g = OR(g, cmp_terms('<', c[i], ZERO, True), cmp_terms('>=', c[i], M.size[i], True))
    return g


def out_v(M, c):
    g = FALSE
    for i in range(2):
        g = OR(g, cmpv('<', c[i], numv(0), True), cmpv('>=', c[i], leaf(M.size[i]), True))
    return g


def parcell(f, i):
    v = par(f, i)
    r = []
    for k in range(2):
        t = mk('elem', mk('fld', v, 'e_'), num(k))
        int_terms.add(t)
        r.append(t)
    return r


def eq_cell(a, b, z=True):
    g = TRUE
    for i in range(3 if z and len(a) > 2 and len(b) > 2 else 2):
        g = AND(g, cmpv('==', a[i] if isinstance(a[i], N) else leaf(a[i]), b[i] if isinstance(b[i], N) else leaf(b[i]), True))
    return g


def edge_index(M, c):
    return t_add(c[0], t_mul(c[1], M.size[0]))


def unmod(t):
    """remainders written with the quotient"""
    for x in sorted(subterms(t), key=lambda x: getattr(x, 'id', 0)):
        if isinstance(x, T) and x.op == 'imod':
            q = mk('idiv', x.args[0], x.args[1])
            t = subst(t, {x: t_sub(x.args[0], t_mul(x.args[1], q))})
    return t


def same_index(M, k, c, g):
    """k numbers the cell c"""
    k = k.args[0] if k.op == 'U' else k
    d = unmod(t_sub(k, edge_index(M, c)))
    return d is ZERO or not sat(AND(g, NOT(cmp_terms('==', d, ZERO, True))))


def g_stores(M, I):
    r = []
    for e in I.events:
        if e.kind == 'store' and e.loc is not None:
            for g, t in cases(e.loc):
                if t.op == 'elem' and t.args[0] is M.g:
                    r.append((e, AND(e.g, g), t))
    return r


def edge_stores(M, I):
    r = []
    for e in I.events:
        if e.kind == 'store' and e.loc is not None:
            for g, t in cases(e.loc):
                if t.op == 'elem' and t.args[0] is M.edges:
                    r.append((e, AND(e.g, g), t.args[1]))
    return r


def left(I):
    g = TRUE
    for L in I.loop_info:
        if L.exits:
            g = AND(g, OR(NOT(L.entry.g), *[x.g for x in L.exits if x is not None]))
    return g


def goal_known(M, I, st):
    """the map counts as computed for a goal inside the map"""
    c = comps(I, I.read1(M.goal, st))
    return c, AND(NOT(out_v(M, c)), cmpv('==', c[2], numv(0), True))


def check(ctx):
    M = model(ctx)
    ctx.part(create, M)
    ctx.part(update, M)
    ctx.part(flood, M)
    ctx.part(requeue, M)
    ctx.part(selection, M)
    ctx.part(relaxation, M)
    ctx.part(init, M)


def seeded(ctx, M, I, rule, e, goal, what):
    """the entry puts the goal into the queue, with a cost between minus one cell and zero"""
    k, raw, v = record(ctx, I, e)
    ctx.entail(rule, e.g, eq_cell(v, goal), at(e), '%s is not at the goal' % what)
    ctx.entail(rule, e.g, AND(cmpv('<=', raw, numv(0), False), cmpv('>=', raw, leaf(t_neg(M.ec)), False)), at(e), 'cost of %s' % what)
    return raw


def create(ctx, M):
    f, I, st = run(ctx, M, 'create')
    s, e_ = parcell(f, 0), parcell(f, 1)
    site = f.name
    no = OR(outside(M, s), outside(M, e_))
    c, known = goal_known(M, I, st)
    ctx.entail('goal-only-if-computed', AND(st.g, no), NOT(known), site, 'the map counts as computed for a goal although start or goal are outside')
    ctx.entail('goal-only-if-computed', AND(st.g, NOT(no)), AND(known, eq_cell(c, e_)), site, 'the computed map does not count for its goal')
    fs = evs(I, 'fill')
    ctx.entail('computed-once', g_of(fs), NOT(no), site, 'cells outside of the map are used')
    ctx.entail('computed-once', NOT(no), g_of(fs), site, 'a new map is not computed')
    for x in I.events:
        if x.kind == 'index' or x.kind == 'call' and x.name.endswith('::clear'):
            ctx.entail('outside-untouched', x.g, NOT(no), at(x), 'the cost map is used although start or goal are outside')
    for a in range(len(fs)):
        for b in range(a):
            ctx.ob('computed-once', not sat(AND(fs[a].g, fs[b].g)), at(fs[a]), 'the map is computed twice')
    for x in fs:
        S = vec_of(I, x.args[0])
        ctx.entail('computed-once', x.g, eq_cell(S, s + [ZERO]), at(x), 'computed for another start')
        seeds = [q for q in evs(I, 'queue') if q.name in ('push', 'emplace') and q.seq < x.seq]
        clears = [q for q in evs(I, 'queue') if q.name == 'clear' and q.seq < x.seq and q.obj is x.obj and not sat(AND(x.g, NOT(q.g)))]
        mine = [q for q in seeds if q.obj is x.obj]
        ctx.ob('goal-is-the-seed', bool(clears) and all(q.seq > clears[-1].seq for q in mine), at(x), 'entries of an earlier computation stay in the queue')
        ctx.entail('goal-is-the-seed', x.g, g_of(mine), at(x), 'the goal is not put into the queue')
        sx = IN.State(x.g, dict(x.mem))
        for q in mine:
            raw = seeded(ctx, M, I, 'goal-is-the-seed', q, e_ + [ZERO], 'the seed')
            gl = mk('elem', M.g, mk('vec', e_[0], e_[1], ZERO))
            cur = I.freeze(I.read1(gl, sx))
            ctx.entail('goal-is-the-seed', AND(x.g, q.g), cmpv('<=', raw, cur, False), at(q), 'the seed is above the cost of its cell')
            ctx.entail('goal-is-the-seed', x.g, cmpv('>=', cur, leaf(t_neg(M.ec)), False), at(q), 'cost of the goal')
        o = [mk('par', 'cx'), mk('par', 'cy')]
        for t in o:
            int_terms.add(t)
        cur = I.freeze(I.read1(mk('elem', M.g, mk('vec', o[0], o[1], ZERO)), sx))
        other = NOT(AND(cmp_terms('==', o[0], e_[0], True), cmp_terms('==', o[1], e_[1], True)))
        bad = [t for g, t in cases(cur) if sat(AND(x.g, other, g)) and t is not FMAX]
        ctx.ob('all-cells-forgotten', not bad, at(x), 'a cell starts with %s' % ', '.join(show(t)[:80] for t in bad[:3]))
        after = [(q, g, t) for q, g, t in g_stores(M, I) if q.seq > x.seq]
        for q, g, t in after:
            ctx.entail('cost-of-the-goal', g, eq_cell(keycomp(t.args[1], 3), e_ + [ZERO]), at(q), 'another cell than the goal is changed afterwards')
        gl = mk('elem', M.g, mk('vec', e_[0], e_[1], ZERO))
        same_val(ctx, 'cost-of-the-goal', I.freeze(I.read1(gl, st)), leaf(ZERO), site, 'cost of the goal', AND(st.g, NOT(no)))
    ctx.need('computations', len(fs))


class Upd(object):
    pass


_u = {}


def updated(ctx, M):
    if 'u' in _u:
        ctx.interps.append(_u['u'].I)
        return _u['u']
    U = Upd()
    U.f, U.I, U.st = run(ctx, M, 'update')
    I = U.I
    U.s, U.e = parcell(U.f, 0), parcell(U.f, 1)
    rect = par(U.f, 2)
    U.rect = [[mk('elem', mk('fld', mk('fld', rect, n), 'e_'), num(i)) for i in range(2)] for n in ('min', 'max')]
    for r in U.rect:
        for t in r:
            int_terms.add(t)
    gc = comps(I, leaf(M.goal))
    U.same = eq_cell(gc, U.e + [ZERO])
    # the least cost of the region: carried out of loops that read the cost map, compared in what follows
    U.least = least_cost(ctx, M, U)
    _u['u'] = U
    return U


def least_cost(ctx, M, U):
    I = U.I
    cand = {}
    for L in I.loop_info:
        for loc in L.phis:
            try:
                nv = I.freeze(I.read1(loc, L.next))
            except Exception:
                continue
            if not isinstance(nv, N):
                continue
            for t in leaves(nv):
                if is_g(M, t) and 'rect' in show(t) or is_g(M, t) and any(r in subterms(t) for rr in U.rect for r in rr):
                    cand.setdefault(loc, []).append(L)
    if len(cand) != 1:
        raise AnchorMissing('least cost of the region: %d candidates' % len(cand))
    U.lloc, U.lloops = list(cand.items())[0]
    nest = [e.loops for e in evs(I, 'index') if U.lloops[-1] in e.loops and any(t is M.g for g, t in cases(e.obj))]
    if not nest:
        raise AnchorMissing('reads of the region')
    U.lloops = [l for l in nest[0] if U.lloc in l.phis]
    U.outer = outer = U.lloops[0]
    t = mk('phi', outer.id, U.lloc)
    return t


def update(ctx, M):
    U = updated(ctx, M)
    I, st, f = U.I, U.st, U.f
    site = f.name
    cr = evs(I, 'create')
    fs = evs(I, 'fill')
    pre = left(I)
    ctx.entail('other-goal-recomputed', AND(NOT(U.same), pre), g_of(cr), site, 'a map of another goal is kept')
    for x in cr:
        ctx.entail('recomputed-as-asked', x.g, AND(eq_cell(vec_of(I, x.args[0]), U.s), eq_cell(vec_of(I, x.args[1]), U.e)), at(x), 'recomputed for another start or goal')
        for y in I.events:
            if y.seq > x.seq and (y.kind in ('fill', 'queue', 'create') or y.kind == 'store' and y.loc is not None and any(rootloc(t) is THIS for g, t in cases(y.loc))):
                ctx.ob('recomputed-as-asked', not sat(AND(x.g, y.g)), at(y), 'changed after the map was recomputed')
    scan(ctx, M, U)
    m = U.least
    ctx.entail('goal-in-region-recomputed', AND(U.same, cmp_terms('==', m, ZERO, False), pre), g_of(cr), site, 'a region with the goal is not recomputed')
    no = OR(outside(M, U.s), outside(M, U.e))
    c, known = goal_known(M, I, st)
    ctx.entail('goal-only-if-updated', AND(st.g, U.same, no, pre, NOT(g_of(cr))), NOT(known), site, 'a map that missed an update counts as computed')
    kept = AND(st.g, U.same, NOT(no), pre, NOT(g_of(cr)))
    ctx.entail('goal-only-if-updated', kept, AND(known, eq_cell(c, U.e)), site, 'the updated map does not count for its goal')
    for x in fs:
        ctx.entail('updated-once', x.g, AND(U.same, NOT(no)), at(x), 'cells outside of the map are used')
        ctx.entail('updated-once', x.g, eq_cell(vec_of(I, x.args[0]), U.s + [ZERO]), at(x), 'relaxed for another start')
    ctx.entail('updated-once', AND(U.same, NOT(no), pre, NOT(g_of(cr))), g_of(fs), site, 'the map is not relaxed after a change')
    for a in range(len(fs)):
        for b in range(a):
            ctx.ob('updated-once', not sat(AND(fs[a].g, fs[b].g)), at(fs[a]), 'relaxed twice')
    ctx.need('relaxations', len(fs))
    for x in fs:
        first = min([q.seq for q in evs(I, 'queue') if q.name in ('push', 'emplace')] + [x.seq])
        for q in M.queues:
            cl = [y for y in evs(I, 'queue') if y.name == 'clear' and any(t is q for g, t in cases(y.obj))]
            ok = any(y.seq < first and not sat(AND(x.g, NOT(y.g))) for y in cl) and not any(y.seq > first and sat(AND(y.g, x.g)) for y in cl)
            ctx.ob('queues-start-empty', ok, at(x), '%s does not start empty' % show(q))


def scan(ctx, M, U):
    """the least cost is taken over all cells of the region, together with its cell"""
    I = U.I
    n = 0
    rd = [e for e in evs(I, 'index') if any(t is M.g for g, t in cases(e.obj)) and e.loops and U.outer in e.loops]
    if not rd:
        raise AnchorMissing('reads of the region')
    L = rd[0].loops
    key = [t for g, t in cases(rd[0].args[0])]
    if len(key) != 1:
        raise AnchorMissing('cell of the region')
    key = keycomp(key[0], 3)
    from sweep import visits, stops, CELL
    x, y = CELL[:2]
    inr = AND(cmp_terms('>=', x, U.rect[0][0], True), cmp_terms('<=', x, U.rect[1][0], True),
              cmp_terms('>=', y, U.rect[0][1], True), cmp_terms('<=', y, U.rect[1][1], True))
    body = L[-1].body_g
    for v in visits([leaf(t) for t in key[:2]], AND(U.same, body), L):
        ctx.entail('region-scanned', AND(v.g, U.same), inr, at(rd[0]), 'a cell outside of the region is looked at')
        ctx.entail('region-scanned', AND(inr, U.same), v.g, at(rd[0]), 'a cell of the region is not looked at')
        for l, g in stops(L, v.mp, AND(inr, U.same)):
            ctx.ob('region-scanned', False, '%s:%d' % (l.file, l.line), 'cells of the region are left out with %s' % witness(g)[:300])
    li = L[-1]
    ctx.ob('least-of-region', len(L) >= 1 and li in U.lloops, at(rd[0]), 'the cost of a cell of the region is not considered')
    h = I.freeze(I.read1(U.lloc, li.head))
    nx = I.freeze(I.read1(U.lloc, li.next))
    same_val(ctx, 'least-of-region', I.freeze(I.read1(U.lloc, U.outer.entry)), leaf(FMAX), at(rd[0]), 'least cost before the region', U.same)
    for l in L:
        if l is not U.outer:
            same_val(ctx, 'least-of-region', I.freeze(I.read1(U.lloc, l.entry)), I.freeze(I.read1(U.lloc, L[L.index(l) - 1].head)), at(rd[0]), 'least cost carried on', l.entry.g)
    # where the cell of the least cost is kept
    argl = None
    for loc in li.phis:
        try:
            va = I.freeze(I.read1(loc, li.next))
            cs = [t for t in leaves(I.typed(I.freeze(I._getelem(I.getfld(I.read1(loc, li.next), 'e_'), num(0))), INT32))]
        except Exception:
            continue
        if loc is not U.lloc and any(t is key[0] for t in cs) and loc.op != 'fld' and loc.op != 'elem':
            argl = loc
            c0 = comps(I, I.read1(loc, li.next))
            for g, t in cases(nx):
                z = AND(li.next.g, g)
                if not sat(z):
                    continue
                if is_g(M, t):
                    ctx.entail('cell-of-least', z, eq_cell(c0, key), at(rd[0]), 'the kept cell is not the cell of the least cost')
                else:
                    old = comps(I, I.read1(loc, li.head))
                    ctx.entail('cell-of-least', z, eq_cell(c0, old), at(rd[0]), 'the kept cell changes without the least cost')
            break
    U.argl = argl
    for g, t in cases(nx):
        z = AND(li.next.g, g)
        if not sat(z):
            continue
        n += 1
        if is_g(M, t):
            ctx.entail('least-of-region', z, AND(eq_cell(keycomp(t.args[1], 3), key), cmpv('<=', leaf(t), h, False)), at(rd[0]), 'a higher cost is kept')
        else:
            cur = mk('elem', M.g, mk('vec', *key))
            ctx.entail('least-of-region', z, AND(cmpv('==', leaf(t), h, False), cmpv('>=', leaf(cur), h, False)), at(rd[0]), 'a lesser cost is not kept')
    ctx.need('cases of the least cost', n, 2)


def flood(ctx, M):
    """what is erased, and what bounds it"""
    U = updated(ctx, M)
    I = U.I
    m = U.least
    pops = [e for e in evs(I, 'queue', 'pop')]
    ctx.need('erasing loop', len(pops))
    if len(set((tuple(l.id for l in e.loops)) for e in pops)) != 1 or not pops[0].loops:
        raise AnchorMissing('erasing loop')
    L = pops[0].loops[-1]
    eq = [t for g, t in cases(pops[0].obj)]
    if len(eq) != 1:
        raise AnchorMissing('queue of cells to erase')
    eq = eq[0]
    site = at(pops[0])
    pushes = [e for e in evs(I, 'queue') if e.name in ('push', 'emplace')]
    into_e = [e for e in pushes if any(t is eq for g, t in cases(e.obj))]
    into_o = [e for e in pushes if not any(t is eq for g, t in cases(e.obj))]
    state = pops[0].val.leaf
    top = mk('qtop', state)
    cell = [one_leaf(x) for x in comps(I, I.getfld(leaf(top), 'v_'))]
    # begin: the least cell of the region, and the start if it is beyond
    begin = [e for e in into_e if L not in e.loops]
    gs = mk('elem', M.g, mk('vec', U.s[0], U.s[1], ZERO))
    if getattr(U, 'argl', None) is None:
        for loc in U.lloops[-1].phis:
            try:
                nv = I.freeze(I.read1(loc, U.lloops[-1].next))
            except Exception:
                nv = None
            if loc is not U.lloc and isinstance(nv, N) and len(leaves(nv)) > 1:
                raise AnchorMissing('cell of the least cost')
        ctx.ob('cell-of-least', False, site, 'the cell of the least cost is not kept')
        return
    am = comps(I, I.read1(U.argl, U.outer.head))
    bl = bs = FALSE
    for e in begin:
        v = record(ctx, I, e)[2]
        bl = OR(bl, AND(e.g, eq_cell(v, am)))
        bs = OR(bs, AND(e.g, eq_cell(v, U.s + [ZERO])))
        ctx.entail('erase-begins', e.g, OR(eq_cell(v, am), eq_cell(v, U.s + [ZERO])), at(e), 'another cell is erased')
    live = AND(L.entry.g)
    ctx.entail('erase-begins', AND(live, NOT(cmp_terms('==', m, FMAX, False))), bl, site, 'the changed region is not erased')
    ctx.entail('erase-begins', AND(live, cmp_terms('>', gs, m, False)), bs, site, 'cells around the start are not erased')
    # loop: until the queue is empty, one cell per iteration
    z = mk('qsize', state)
    some = cmp_terms('>=', z, num(1), True)
    ctx.entail('erase-all', AND(L.entry.g, some), L.body_g, site, 'erasing ends with cells left')
    ctx.entail('erase-all', AND(L.body_g, some), exists_other(L.next.g, [l.ind for l in pops[0].loops]), site, 'erasing ends with cells left')
    ctx.entail('erase-all', AND(L.body_g, some), g_of(pops), site, 'a cell stays in the queue')
    body = AND(L.body_g, some)
    stores = [(e, g, t) for e, g, t in g_stores(M, I) if L in e.loops]
    cur = mk('elem', mk('phi', L.id, mk('fld', M.g, '#elems')), mk('vec', *cell))
    er = FALSE
    for e, g, t in g_stores(M, I):
        ctx.ob('only-erased', L in e.loops and one_leaf(e.val) is FMAX, at(e), 'a cost is set to %s' % show(e.val)[:100])
        if L in e.loops:
            ctx.entail('only-erased', g, eq_cell(keycomp(t.args[1], 3), cell), at(e), 'another cell is erased')
            er = OR(er, g)
    rd = set(x for e in into_e + into_o if L in e.loops for x in g_reads(M, e.g, cell)) | set(x for e, g, t in stores for x in g_reads(M, g, cell))
    done = FALSE
    for x in rd:
        done = OR(done, cmp_terms('==', x, FMAX, False))
    ctx.entail('popped-is-erased', AND(body, NOT(done)), er, site, 'a cell is not erased')
    # neighbours
    loops_in = [l for l in I.loop_info if l is not L and any(L in e.loops and l in e.loops and l is not L and e.loops.index(l) > e.loops.index(L) for e in pushes)]
    if loops_in:
        raise AnchorMissing('neighbours of an erased cell')
    for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        nb = [t_add(cell[0], num(dx)), t_add(cell[1], num(dy))]
        inn = NOT(outside(M, nb))
        G = AND(body, NOT(done), inn)
        ge = go = FALSE
        rn = set()
        for e in into_e + into_o:
            if L not in e.loops:
                continue
            v = leafs(record(ctx, I, e)[2], e.g)
            if v is None:
                raise AnchorMissing('neighbour cell')
            if v[0] is nb[0] and v[1] is nb[1]:
                rn.update(g_reads(M, e.g, nb))
                if e in into_e:
                    ge = OR(ge, e.g)
                else:
                    go = OR(go, e.g)
        if not ctx.ob('neighbours-followed', bool(rn), site, 'the neighbour (%d, %d) is not looked at' % (dx, dy)):
            continue
        for x in sorted(rn, key=lambda t: t.id):
            some = NOT(cmp_terms('==', x, FMAX, False))
            eqs = TRUE
            for y in rn:
                eqs = AND(eqs, cmp_terms('==', x, y, False))
            ctx.entail('neighbours-followed', AND(G, eqs, some, cmp_terms('>=', x, m, False)), ge, site, 'neighbour (%d, %d) at or beyond the change is not erased' % (dx, dy))
            ctx.entail('neighbours-followed', AND(G, eqs, some, cmp_terms('<', x, m, False)), go, site, 'neighbour (%d, %d) before the change does not spread its cost' % (dx, dy))
            ctx.entail('only-beyond-erased', AND(ge, eqs), cmp_terms('>=', x, m, False), site, 'neighbour (%d, %d) before the change is erased' % (dx, dy))
    for e in into_e + into_o:
        if L in e.loops:
            v = leafs(record(ctx, I, e)[2], e.g)
            ctx.entail('inside', e.g, NOT(outside(M, v)), at(e), 'a cell outside of the map is followed')
            ctx.ob('inside', v[2] is ZERO or v[2] is cell[2], at(e), 'a cell of heading %s is followed' % show(v[2]))
    # cells that spread their cost carry it
    for e in into_o:
        if L not in e.loops:
            continue
        k, raw, v = record(ctx, I, e)
        v = leafs(v, e.g)
        for g, t in cases(raw):
            if sat(AND(e.g, g)):
                ctx.ob('own-cost', is_g(M, t) and keycomp(t.args[1], 3)[:2] == v[:2], at(e), 'a cell spreads the cost %s' % show(t)[:120])
    # marks are only taken from erased cells
    for e, g, k in edge_stores(M, I):
        for gv, tv in cases(e.val):
            G = AND(g, gv)
            if not sat(G) or tv.op == 'true':
                continue
            ok = False
            for p in into_e:
                if p.loops and L in p.loops and L in e.loops:
                    v = leafs(record(ctx, I, p)[2], p.g)
                    if same_index(M, k, v, TRUE) and not sat(AND(G, NOT(p.g))):
                        ok = True
            if L in e.loops and same_index(M, k, cell, TRUE):
                ok = True
            ctx.ob('marks-kept', ok, at(e), 'the mark of a cell that is not erased is taken away')


def requeue(ctx, M):
    """edge cells, and the goal if nothing else is left, spread their cost again"""
    U = updated(ctx, M)
    I = U.I
    fs = evs(I, 'fill')
    oq = [t for x in fs for g, t in cases(x.obj)]
    if len(set(oq)) != 1:
        raise AnchorMissing('queue of the relaxation')
    pops = evs(I, 'queue', 'pop')
    L = pops[0].loops[-1]
    pushes = [e for e in evs(I, 'queue') if e.name in ('push', 'emplace') and any(t is oq[0] for g, t in cases(e.obj)) and L not in e.loops]
    marks = [e for e in pushes if e.loops]
    last = [e for e in pushes if not e.loops]
    if not ctx.ob('marked-requeued', bool(marks), U.f.name, 'marked cells do not spread their cost again'):
        return
    for e in marks:
        k, raw, v = record(ctx, I, e)
        v = leafs(v, e.g)
        t = one_leaf(raw, e.g)
        if v is None or t is None:
            raise AnchorMissing('marked cell')
        ctx.ob('own-cost', is_g(M, t) and keycomp(t.args[1], 3)[:2] == v[:2], at(e), 'a cell spreads the cost %s' % show(t)[:120])
        mk_ = [x for w in dvars(e.g) for x in terms_in(atoms[w], 'elem') if x.args[0] is M.edges or x.args[0].op == 'phi' and x.args[0].args[1] is mk('fld', M.edges, '#elems')]
        mk_ = [x for x in mk_ if any(l.ind in subterms(x) for l in e.loops)]
        if not ctx.ob('marked-requeued', len(set(mk_)) == 1, at(e), 'cells are taken without looking at the mark'):
            continue
        x = mk_[0]
        idx = x.args[1].args[0] if x.args[1].op == 'U' else x.args[1]
        ctx.ob('marked-requeued', same_index(M, idx, v, e.g), at(e), 'the mark %s is taken for the cell (%s, %s)' % (show(idx)[:80], show(v[0])[:80], show(v[1])[:80]))
        b = bvar(x)
        loops = e.loops
        li = loops[-1]
        ctx.entail('marked-requeued', AND(li.body_g, b), e.g, at(e), 'a marked cell does not spread its cost again')
        if len(loops) == 1 and idx is li.ind:
            n = mk('fld', M.edges, '#size')
            for l in (li,):
                ctx.ob('marked-requeued', l.next is not None and not sat(AND(l.body_g, NOT(exists_other(l.next.g, [l.ind])))), at(e), 'marked cells are left out')
                full = OR(cmp_terms('>=', l.ind, n, True), cmp_terms('>=', l.ind, t_mul(M.size[0], M.size[1]), True))
                ctx.entail('marked-requeued', AND(l.entry.g, cmp_terms('>=', l.ind, ZERO, True), NOT(full)), l.body_g, at(e), 'marked cells are left out')
        else:
            from sweep import visits, stops, CELL
            for w in visits([leaf(v[0]), leaf(v[1])], li.body_g, loops):
                inn = NOT(outside(M, CELL[:2]))
                ctx.entail('marked-requeued', AND(inn, loops[0].entry.g), w.g, at(e), 'marked cells are left out')
                for l, g in stops(loops, w.mp, AND(inn, loops[0].entry.g)):
                    ctx.ob('marked-requeued', False, at(e), 'marked cells are left out with %s' % witness(g)[:300])
    for e in last:
        seeded(ctx, M, I, 'goal-if-nothing-left', e, U.e + [ZERO], 'the seed')
    for x in fs:
        sts = [t for e in last for g, t in cases(e.val)] or [qstate(I, IN.State(x.g, dict(x.mem)), x.obj)]
        for t in sts[:1]:
            ctx.entail('goal-if-nothing-left', AND(x.g, cmp_terms('<=', mk('qsize', t), ZERO, True)), g_of(last), at(x), 'nothing spreads its cost')


_f = {}


def filled(ctx, M):
    if 'f' in _f:
        ctx.interps.append(_f['f'].I)
        return _f['f']
    R = Upd()
    R.f, R.I, R.st = run(ctx, M, M.fill)
    _f['f'] = R
    return R


def selection(ctx, M):
    """which queue entries are expanded"""
    R = filled(ctx, M)
    I, f = R.I, R.f
    pops = evs(I, 'queue', 'pop')
    ctx.need('queue entries taken', len(pops))
    if len(set(e.val.leaf for e in pops)) != 1 or not pops[0].loops:
        raise AnchorMissing('selection of the entries')
    state = pops[0].val.leaf
    top = mk('qtop', state)
    L = pops[0].loops[-1]
    pg = g_of(pops)
    site = at(pops[0])
    v = [one_leaf(x) for x in comps(I, I.getfld(leaf(top), 'v_'))]
    raw = one_leaf(I.freeze(I.getfld(leaf(top), 'p_raw_')))
    S = [mk('elem', mk('fld', par(f, M.fs), 'e_'), num(i)) for i in range(2)]
    ps = []
    for e in I.events:
        if e.kind in ('push', 'insert') and e.loops and e.loops[-1] is L:
            a = unfreeze(e.args[0])
            r_ = one_leaf(I.freeze(I.getfld(a, 'p_raw_')), e.g)
            c_ = leafs(vec_of(I, I.getfld(a, 'v_')), e.g)
            ctx.ob('entry-kept-whole', r_ is raw and c_ == v, at(e), 'an entry is changed when it is taken')
            ps.append(e)
    ctx.need('entries to expand', len(ps))
    R.centers = ps[0].obj
    kept = g_of(ps)
    rng = t_mul(M.ec, t_add(t_add(mk('fld', M.p, 'range'), mk('fld', M.p, 'local_range')), mk('fld', M.p, 'longcut_range')))
    alltops = AND(pg)
    gs, gv = set(), set()
    guards = [kept, L.next.g] + [g for e, g, k in edge_stores(M, I)]
    for g in guards:
        gv.update(g_reads(M, g, v))
        gs.update(g_reads(M, g, S))
    fresh_ = TRUE
    for x in gv:
        fresh_ = AND(fresh_, cmp_terms('<=', raw, x, False))
    near = TRUE
    for x in gs:
        near = AND(near, cmp_terms('<=', t_sub(raw, rng), x, False))
    ctx.entail('live-entry-expanded', AND(pg, fresh_, near), kept, site, 'an entry that is neither stale nor out of range is not expanded')
    fl = FALSE
    for e, g, k in edge_stores(M, I):
        if L in e.loops and same_index(M, k, v, TRUE):
            fl = OR(fl, AND(g, tobool_v(e.val)))
    ctx.entail('cut-entry-marked', AND(pg, fresh_, NOT(kept)), fl, site, 'an entry that is not expanded is not marked for later')
    # the rounds end with an empty queue
    cs = mk('fld', one_leaf(R.centers), '#size')
    outer = pops[0].loops[-2] if len(pops[0].loops) > 1 else None
    if outer is None:
        raise AnchorMissing('rounds of the relaxation')
    int_terms.add(M.n)
    z = mk('qsize', state)
    inv = TRUE
    h = I.freeze(I.read1(cs, L.head))
    e0 = I.freeze(I.read1(cs, L.entry))
    same_val(ctx, 'round-starts-empty', e0, leaf(ZERO), site, 'entries of the previous round', L.entry.g)
    nx = I.freeze(I.read1(cs, L.next))
    for loc, p in L.phis.items():
        if loc is cs:
            continue
        try:
            h2, e2, n2 = [I.freeze(I.read1(loc, x)) for x in (L.head, L.entry, L.next)]
            if one_leaf(e2) is not ZERO or one_leaf(h2) is None or one_leaf(h) is None:
                continue
            if not sat(AND(L.next.g, NOT(cmpv('==', sub(n2, h2), sub(nx, h), True)))):
                inv = AND(inv, cmpv('==', h2, h, True))
        except Exception:
            continue
    done = FALSE
    for x in L.exits:
        if x is not None:
            done = OR(done, x.g)
    # another way to leave the selection than an empty queue needs entries
    ctx.entail('round-takes-entries', AND(done, inv, cmpv('<=', h, numv(0), True), cmp_terms('>=', M.n, num(1), True)),
               cmp_terms('<=', z, ZERO, True), site, 'the relaxation ends although there are entries')
    ends = FALSE
    for x in outer.exits:
        if x is not None:
            ends = OR(ends, x.g)
    ss = [t for w in dvars(ends) for t in terms_in(atoms[w], 'phi') if t.args[1] is cs]
    okk = AND(*[cmp_terms('<=', t, ZERO, True) for t in set(ss)]) if ss else FALSE
    ctx.entail('rounds-until-empty', ends, okk, '%s:%d' % (rel(outer.file), outer.line), 'the relaxation ends with entries to expand')
    R.L, R.outer = L, outer


def tobool_v(v):
    return lift1(lambda t: TRUE if t.op == 'true' else (FALSE if t.op in ('false', 'num') and t is not ONE else bvar(t)), v) if isinstance(v, N) and v not in (TRUE, FALSE) else v


def relaxation(ctx, M):
    R = filled(ctx, M)
    I, f = R.I, R.f
    ap = g_stores(M, I)
    ctx.need('stores into the cost map', len(ap))
    n = 0
    for e, g, t in ap:
        ks = [elem_source(k) for k in keycomp(t.args[1], 3)]
        src = [elem_source(x) for x in leaves(e.val)]
        cur = I.freeze(I.read(e.loc, State(e.g, e.mem)))
        ctx.entail('improve-strictly', g, cmpv('<', e.val, cur, False), at(e), 'cost written to a cell must be below its current cost')
        if any(s is None for s in ks) or any(s is None for s in src) or len(set(s[0] for s in ks + src)) != 1:
            ctx.ob('same-record', False, at(e), 'cell and cost written come from different candidates')
            continue
        el = src[0][0]
        cpath = src[0][1]
        ppath = tuple(x for x in ks[0][1] if not isinstance(x, T))
        ppath = ppath[:-1] if ppath and ppath[-1] == 'e_' else ppath
        root = container_root(el)
        # applied to every candidate that improves
        li = e.loops[-1]
        whole(ctx, 'all-candidates-applied', li, e.loops)
        ctx.entail('all-candidates-applied', AND(li.body_g, cmpv('<', e.val, cur, False)), g, at(e), 'an improvement is dropped')
        qs = [q for q in evs(I, 'queue') if q.name in ('push', 'emplace') and li in q.loops]
        ok = FALSE
        for q in qs:
            k, raw, v = record(ctx, I, q)
            if one_leaf(raw, q.g) is one_leaf(e.val, g) and leafs(v, q.g) is not None and eq_sure(v, keycomp(t.args[1], 3), q.g):
                ok = OK_or(ok, q.g)
        ctx.entail('improved-cell-queued', g, ok, at(e), 'an improved cell does not spread its cost')
        for q in [q for q in I.events if q.kind in ('push', 'insert') and q.obj is not None and any(x is root for x in leaves(q.obj))]:
            n += 1
            cl = [c for c in I.events if c.kind == 'clear' and c.obj is not None and any(x is root for x in leaves(c.obj))]
            ctx.ob('all-candidates-applied', not any(q.seq < c.seq < e.seq for c in cl), at(q), 'candidates are removed before they are applied')
            candidate(ctx, M, R, q, cpath, ppath)
    ctx.need('candidates', n)
    for q in evs(I, 'queue'):
        if q.name in ('push', 'emplace'):
            ctx.ob('only-improved-queued', any(not sat(AND(q.g, NOT(g))) for e, g, t in ap if e.loops and q.loops and e.loops[-1] is q.loops[-1]), at(q), 'a cell is queued without an improvement')
        elif q.name == 'clear':
            ctx.ob('only-improved-queued', False, at(q), 'queued entries are forgotten')


def OK_or(a, b):
    return OR(a, b)


def eq_sure(v, key, g):
    return not sat(AND(g, NOT(eq_cell(v, key))))


def whole(ctx, rule, l, loops):
    ok = l.next is not None and not sat(AND(l.body_g, NOT(exists_other(l.next.g, [x.ind for x in loops[:loops.index(l) + 1]]))))
    ctx.ob(rule, ok, '%s:%d' % (rel(l.file), l.line), 'the loop ends early')


def candidate(ctx, M, R, q, cpath, ppath):
    I = R.I
    w = at(q)
    v = unfreeze(q.args[0])
    cost = I.freeze(path_fld(v, cpath, I))
    pos = vec_of(I, path_fld(v, ppath, I))
    pos = leafs(pos, q.g)
    if pos is None or len(q.loops) < 2:
        raise AnchorMissing('candidate')
    li, lo = q.loops[-1], q.loops[-2]
    X = Dd = None
    for t in terms_in(pos[0], 'elem') + terms_in(pos[0], 'fld'):
        s = elem_source(t)
        if s is None:
            continue
        r = container_root(s[0])
        if r is M.diffs:
            Dd = s[0]
        elif r is one_leaf(R.centers if hasattr(R, 'centers') else leaf(r)):
            X = s[0]
    if not ctx.ob('step-of-the-entry', X is not None and Dd is not None, w, 'the reached cell %s is not an entry plus a step' % show(pos[0])[:200]):
        return
    fx = lambda n: one_leaf(I.freeze(I.getfld(leaf(X), n)))
    fd = lambda n: one_leaf(I.freeze(I.getfld(leaf(Dd), n)))
    raw = fx('p_raw_')
    pc = leafs(comps(I, I.getfld(leaf(X), 'v_')))
    dc = leafs(comps(I, I.getfld(leaf(Dd), 'd')))
    for i in range(2):
        ctx.ob('step-of-the-entry', t_sub(pos[i], t_add(pc[i], dc[i])) is ZERO, w, 'component %d of the reached cell is %s' % (i, show(pos[i])[:120]))
    ctx.ob('step-of-the-entry', X.args[1] is lo.ind and Dd.args[1] is li.ind, w, 'entries and steps are not taken one by one')
    ctx.entail('inside', q.g, NOT(outside(M, pos)), w, 'a cell outside of the map is reached')
    ec, g2l = fd('euclid_cost'), fd('grid_to_len')
    # the cost
    forms = [(AND(q.g, g), t) for g, t in cases(cost) if sat(AND(q.g, g))]
    full = [t for g, t in forms if any(x.op == 'phi' for x in subterms(t) if isinstance(x, T) and not x is X) and phis_of_inner(I, t, q)]
    full = sorted(set(full), key=lambda t: t.id)
    if not ctx.ob('cost-of-the-step', len(full) == 1, w, 'the cost of a step does not depend on the cells it passes'):
        return
    full = full[0]
    for g, t in forms:
        if t is full:
            ctx.entail('cost-not-negative', g, cmp_terms('>=', t_sub(full, raw), ZERO, False), w, 'a step has a negative cost')
        else:
            ctx.ob('cost-of-the-step', t is raw, w, 'the cost of a step is %s' % show(t)[:200])
            ctx.entail('cost-of-the-step', g, cmp_terms('<=', t_sub(full, raw), ZERO, False), w, 'a step has no cost')
    ph = phis_of_inner(I, full, q)
    ls = set(l for p, l in ph)
    if len(ls) != 1:
        raise AnchorMissing('sums over the cells of a step')
    L = ls.pop()
    e0, nx = {}, {}
    for p, l in ph:
        e0[p] = one_leaf(I.freeze(I.read1(p.args[1], L.entry)))
        n_ = I.freeze(I.read1(p.args[1], L.next))
        nx[p] = one_leaf(n_, L.next.g)
    if any(x is None for x in list(e0.values()) + list(nx.values())):
        raise AnchorMissing('sums over the cells of a step')
    ctx.ob('cost-of-the-step', t_sub(subst(full, e0), t_add(raw, ec)) is ZERO, w, 'cost of a step before its cells: %s' % show(subst(full, e0))[:200])
    inc = t_sub(subst(full, nx), full)
    rel_ = [mk('elem', mk('fld', mk('elem', mk('fld', Dd, 'pos'), L.ind), 'e_'), num(i)) for i in range(3)]
    for t in rel_:
        int_terms.add(t)
    cell = [t_add(pc[i], rel_[i]) for i in range(2)]
    c_ = [x for x in terms_in(inc, 'elem') if rootloc(x) is not None and M.rough in show(x)[:60] and x.args[1].op == 'vec' and keycomp(x.args[1], 3)[:2] == cell]
    r_ = [x for x in terms_in(inc, 'remembered') if keycomp(x.args[0], 3)[:2] == cell]
    if ctx.ob('cost-of-the-step', len(c_) == 1 and len(r_) == 1, w, 'a cell of a step adds %s' % show(inc)[:900]):
        K = t_mul(num(Fraction(1, 100)), t_mul(mk('fld', M.p, 'resolution'), g2l))
        want = t_mul(K, t_add(t_mul(mk('fld', M.cc, 'weight_costmap_'), c_[0]), t_mul(mk('fld', M.cc, 'weight_remembered_'), r_[0])))
        ctx.ob('cost-of-the-step', t_sub(inc, want) is ZERO, w, 'a cell of a step adds %s' % show(inc)[:300])
    else:
        return
    blocked = cmp_terms('>=', c_[0], num(100), True)
    # all cells of a step count, up to the first that is not free
    flags = []
    for loc in L.phis:
        try:
            a = I.freeze(I.read1(loc, L.entry))
            b = I.freeze(I.read1(loc, L.next))
            h = I.freeze(I.read1(loc, L.head))
        except Exception:
            continue
        if a is FALSE and isinstance(h, N) and h.leaf is None and isinstance(b, N):
            if not sat(AND(L.next.g, OR(h, blocked), NOT(b))):
                flags.append((h, b))
    stay = NOT(OR(*[h for h, b in flags])) if flags else TRUE
    ctx.entail('free-steps-only', AND(q.g, L.body_g, blocked), FALSE, w, 'a step through an obstacle is taken')
    if sat(AND(L.body_g, L.next.g, blocked)):
        ctx.ob('free-steps-only', any(not sat(AND(q.g, h)) for h, b in flags), w, 'a step through an obstacle is taken')
    if sat(AND(q.g, L.body_g)):
        ctx.ob('free-steps-only', False, w, 'a step is taken before all of its cells were looked at')
    n_ = mk('fld', mk('fld', Dd, 'pos'), '#size')
    ctx.entail('all-cells-of-a-step', AND(L.entry.g, cmp_terms('>=', L.ind, ZERO, True), cmp_terms('<', L.ind, n_, True), stay), L.body_g, w, 'cells of a step are left out')
    ctx.entail('all-cells-of-a-step', AND(L.body_g, NOT(blocked), stay), L.next.g, w, 'a free cell ends the step')
    for h, b in flags:
        ctx.entail('all-cells-of-a-step', AND(L.body_g, NOT(blocked), L.next.g, NOT(h)), NOT(b), w, 'a free cell blocks the step')
    # completeness
    gn = set(g_reads(M, q.g, pos))
    gp = set(g_reads(M, q.g, pc))
    if not ctx.ob('improvement-recorded', bool(gn), w, 'the cost of the reached cell is not looked at'):
        return
    hyp = AND(li.body_g, NOT(outside(M, pos)))
    for x in gp:
        hyp = AND(hyp, cmp_terms('==', x, raw, False))
    hyp = AND(hyp, cmp_terms('>=', t_sub(full, raw), ec, False), cmp_terms('>=', ec, ZERO, False))
    better = TRUE
    for x in gn:
        better = AND(better, cmp_terms('>', x, full, False))
    at_end = AND(NOT(L.body_g), cmp_terms('>=', L.ind, n_, True), stay)
    ctx.entail('improvement-recorded', AND(hyp, better, at_end, left_of(L)), q.g, w, 'a free step that improves a cell is dropped')
    # a blocked step marks its entry
    marks = FALSE
    for e, g, k in edge_stores(M, I):
        s = elem_source(k) if k.op in ('elem', 'fld') else None
        if s is None or R.L in e.loops:
            continue
        r = container_root(s[0])
        whole(ctx, 'marks-applied', e.loops[-1], e.loops)
        ctx.entail('marks-applied', e.loops[-1].body_g, AND(g, tobool_v(e.val)), at(e), 'a mark is dropped')
        cl = [c for c in I.events if c.kind == 'clear' and c.obj is not None and any(x is r for x in leaves(c.obj))]
        for p in [p for p in I.events if p.kind in ('push', 'insert') and p.obj is not None and any(x is r for x in leaves(p.obj))]:
            ctx.ob('marks-applied', not any(p.seq < c.seq < e.seq for c in cl), at(p), 'marks are removed before they are applied')
            k2 = one_leaf(p.args[0], p.g)
            if k2 is not None and same_index(M, k2, pc, TRUE):
                marks = OR(marks, p.g)
    block = OR(AND(L.body_g, blocked), *[AND(h, NOT(L.body_g)) for h, b in flags])
    chance = TRUE
    for x in gn:
        chance = AND(chance, cmp_terms('>', x, t_add(raw, ec), False))
    ctx.entail('blocked-step-marks', AND(hyp, chance, block, left_of(L)), marks, w, 'an entry with a blocked step is not marked for later')
    whole(ctx, 'all-steps-examined', li, q.loops)
    whole(ctx, 'all-entries-examined', lo, q.loops)
    nd = mk('fld', M.diffs, '#size')
    ctx.entail('all-steps-examined', AND(li.entry.g, cmp_terms('>=', li.ind, ZERO, True), cmp_terms('<', li.ind, nd, True)), li.body_g, w, 'steps are left out')


def left_of(L):
    g = FALSE
    for x in L.exits:
        if x is not None:
            g = OR(g, x.g)
    return OR(NOT(L.entry.g), g) if L.exits else TRUE


def phis_of_inner(I, t, q):
    out = []
    ids = {l.id: l for l in I.loop_info}
    for x in subterms(t):
        if isinstance(x, T) and x.op == 'phi' and x.args[0] in ids and ids[x.args[0]] not in q.loops and not show(x).endswith('#elems)') and x.args[0] > q.loops[-1].id:
            out.append((x, ids[x.args[0]]))
    return out


def init(ctx, M):
    f, I, st = run(ctx, M, 'init')
    site = f.name
    pm = par(f, 1)
    n = [mk('elem', mk('fld', mk('fld', pm, 'size'), 'e_'), num(i)) for i in range(2)]
    for t in n:
        int_terms.add(t)
        add_fact(t, t)
    c, known = goal_known(M, I, st)
    z = AND(st.g, left(I), cmpv('>=', c[0], numv(0), True), cmpv('>=', c[1], numv(0), True), cmpv('==', c[2], numv(0), True))
    ctx.entail('nothing-computed-yet', z, FALSE, site, 'a fresh map counts as computed')
    rs = [e for e in calls(I, 'grid-reset') if any(t is M.g for g, t in cases(e.obj))]
    changed = OR(*[NOT(cmp_terms('==', n[i], M.size[i], True)) for i in range(2)])
    ctx.entail('map-has-its-size', changed, g_of(rs), site, 'the cost map keeps another size')
    for e in rs:
        v = vec_of(I, e.args[0])
        ctx.entail('map-has-its-size', e.g, AND(eq_cell(v, n, False), cmpv('==', v[2], numv(1), True)), at(e), 'the cost map gets another size')
    for fl in ctx.p.records[D + '::Params']['fields']:
        nm = fl['n']
        got = I.freeze(I.read1(mk('fld', M.p, nm), st))
        if isinstance(got, N) and all(t.op == 'fld' or t.op == 'vec' for t in leaves(got)):
            ok = all(t is mk('fld', pm, nm) or t.op == 'vec' and [a for a in t.args] == [mk('elem', mk('fld', mk('fld', pm, nm), 'e_'), num(i)) for i in range(len(t.args))]
                     for g, t in cases(got) if sat(AND(g, st.g)))
            ctx.ob('parameters-kept', ok, site, 'parameter %s becomes %s' % (nm, show(got)[:120]))
        else:
            ctx.ob('parameters-kept', False, site, 'parameter %s becomes %s' % (nm, show(got)[:120]))
    rz = [e for e in I.events if e.kind in ('resize', 'assign') or e.kind == 'call' and e.name.split('::')[-1] in ('resize', 'assign')]
    rz = [e for e in rz if e.obj is not None and any(t is M.edges for t in leaves(e.obj))]
    sz = I.freeze(I.read1(mk('fld', M.edges, '#size'), st))
    want = t_mul(n[0], n[1])
    for g, t in cases(sz):
        if sat(AND(st.g, g)):
            u = t.args[0] if t.op == 'U' else t
            ctx.ob('a-mark-per-cell', t_sub(u, want) is ZERO, site, '%s marks' % show(t)[:120])
    steps(ctx, M, I, st, f)


def steps(ctx, M, I, st, f):
    """one step to every cell nearby"""
    from sweep import visits, stops, CELL
    ps = [e for e in I.events if e.kind in ('push', 'insert') and e.obj is not None and any(t is M.diffs for t in leaves(e.obj))]
    ctx.need('steps', len(ps))
    cl = [e for e in I.events if e.kind == 'clear' and e.obj is not None and any(t is M.diffs for t in leaves(e.obj))]
    ctx.ob('steps-renewed', len(cl) == 1 and cl[0].g is TRUE and cl[0].seq < ps[0].seq and not cl[0].loops, f.name, 'steps of other parameters stay')
    x, y = CELL[:2]
    sq = t_add(t_mul(x, x), t_mul(y, y))
    near = AND(OR(NOT(cmp_terms('==', x, ZERO, True)), NOT(cmp_terms('==', y, ZERO, True))))
    for c in (x, y):
        near = AND(near, cmp_terms('<=', c, num(4), True), cmp_terms('>=', c, num(-4), True))
    if len(ps) != 1:
        got = [leafs(vec_of(I, I.getfld(unfreeze(e.args[0]), 'd')), e.g) for e in ps]
        if any(g is None or any(t.op != 'num' for t in g) for g in got):
            raise AnchorMissing('steps')
        got = [(int(g[0].args[0]), int(g[1].args[0])) for g in got]
        miss = [(i, j) for i in range(-4, 5) for j in range(-4, 5) if 0 < i * i + j * j <= 16 and (i, j) not in got]
        if ctx.ob('steps-nearby', not miss, at(ps[0]), 'step %s is missing' % (miss[:3],)):
            raise AnchorMissing('steps')
        return
    e = ps[0]
    v = unfreeze(e.args[0])
    d = leafs(vec_of(I, I.getfld(v, 'd')), e.g)
    if d is None:
        raise AnchorMissing('step')
    for w in visits([leaf(d[0]), leaf(d[1])], e.g, e.loops):
        bad = []
        wg = exists_other(w.g, [])
        for i in range(-6, 7):
            for j in range(-6, 7):
                at_ = {x: num(i), y: num(j)}
                want = 0 < i * i + j * j <= 16
                g = subst(wg, at_)
                if want and sat(NOT(g)):
                    bad.append('(%d, %d) is missing' % (i, j))
                if not want and sat(g):
                    bad.append('(%d, %d) is too far' % (i, j))
        ctx.ob('steps-nearby', not bad, at(e), 'step %s' % ', '.join(bad[:4]))
        for l, g in stops(e.loops, w.mp, AND(near, cmp_terms('<=', sq, num(16), True))):
            bad = [1 for i in range(-4, 5) for j in range(-4, 5) if 0 < i * i + j * j <= 16 and sat(subst(g, {x: num(i), y: num(j)}))]
            ctx.ob('steps-nearby', not bad, at(e), 'steps are left out')
    # its length factor, its cost, and the cells it passes
    ln = IN.fn_leaf('sqrt', t_add(t_mul(d[0], d[0]), t_mul(d[1], d[1])))
    tl = mk('trunc', ln)
    int_terms.add(tl)
    gl = one_leaf(I.freeze(I.getfld(v, 'grid_to_len')), e.g)
    ctx.ob('length-of-a-step', gl is not None and t_sub(t_mul(gl, tl), ln) is ZERO, at(e), 'length per cell is %s' % show(gl)[:200])
    ec = one_leaf(I.freeze(I.getfld(v, 'euclid_cost')), e.g)
    ok = ec is not None and ec.op == 'call' and ec.args[0].endswith('::euclidCostRough') and ec.args[-1].op == 'vec' and list(ec.args[-1].args)[:2] == d[:2]
    ctx.ob('cost-of-the-way', ok, at(e), 'cost of the way is %s' % show(ec)[:200])
    ps = [x for x in I.events if x.kind in ('push', 'insert') and x.obj is not None and len(x.loops) > len(e.loops) and x.loops[:len(e.loops)] == e.loops]
    if len(ps) != 1 or len(ps[0].loops) != len(e.loops) + 1:
        raise AnchorMissing('cells of a step')
    x = ps[0]
    L = x.loops[-1]
    clo = one_leaf(x.obj)
    cell = leafs(vec_of(I, unfreeze(x.args[0]) if not isinstance(x.args[0], N) or x.args[0].leaf is None or x.args[0].leaf.op != 'vec' else x.args[0]), x.g)
    if cell is None:
        raise AnchorMissing('cells of a step')
    for i in range(2):
        t = cell[i]
        u = t.args[-1] if t.op == 'fn' and t.args[0] == 'round' else None
        u = closed(I, L, u, t_mul(d[i], t_pow_inv(tl))) if u is not None else u
        ctx.ob('cells-of-a-step', u is not None and t_sub(t_mul(u, tl), t_mul(L.ind, d[i])) is ZERO, at(x), 'component %d of a passed cell is %s' % (i, show(t)[:200]))
    same_val(ctx, 'cells-of-a-step', I.freeze(I.read1(mk('fld', clo, '#size'), L.entry)), leaf(ZERO), at(x), 'cells before the first', L.entry.g)
    lo = cmp_terms('>=', L.ind, ZERO, True)
    within = cmp_terms('<', L.ind, tl, True)
    ctx.entail('cells-of-a-step', AND(L.body_g, lo), within, at(x), 'cells beyond the step are counted')
    ctx.entail('cells-of-a-step', AND(L.entry.g, lo, within, e_near(d)), L.body_g, at(x), 'cells of a step are left out')
    whole(ctx, 'cells-of-a-step', L, x.loops)
    h = one_leaf(I.freeze(I.read1(mk('fld', clo, '#size'), L.head)))
    lastc = comps(I, leaf(mk('elem', mk('phi', L.id, mk('fld', clo, '#elems')), t_sub(h, ONE)))) if h is not None else None
    if h is None or h is ZERO:
        ctx.entail('cells-of-a-step', L.body_g, x.g, at(x), 'a passed cell is not counted')
    else:
        ctx.entail('cells-of-a-step', AND(L.body_g, cmp_terms('<=', h, ZERO, True)), x.g, at(x), 'the first cell is not counted')
        ctx.entail('cells-of-a-step', AND(L.body_g, NOT(eq_cell(lastc, cell))), x.g, at(x), 'a passed cell is not counted')


def t_pow_inv(t):
    return t_fdiv(ONE, t)


def closed(I, L, u, step):
    """a value carried by the loop that grows by step per iteration from zero"""
    mp = {}
    for p in subterms(u):
        if isinstance(p, T) and (p.op == 'phi' or p.op in ('fld', 'elem')) and L.id in [q.args[0] for q in subterms(p) if isinstance(q, T) and q.op == 'phi']:
            ph = [q for q in subterms(p) if isinstance(q, T) and q.op == 'phi'][0]
            loc = subst(p, {ph: ph.args[1]}) if p is not ph else ph.args[1]
            try:
                a, b = one_leaf(I.freeze(I.read1(loc, L.entry)), L.entry.g), one_leaf(I.freeze(I.read1(loc, L.next)), L.next.g)
            except Exception:
                continue
            if a is ZERO and b is not None and (t_sub(t_sub(b, p), step) is ZERO or t_sub(b, t_mul(t_add(L.ind, ONE), step)) is ZERO):
                mp[p] = t_mul(L.ind, step)
    return subst(u, mp) if mp else u


def e_near(d):
    g = TRUE
    for t in d[:2]:
        g = AND(g, cmp_terms('<=', t, num(4), True), cmp_terms('>=', t, num(-4), True))
    return g
