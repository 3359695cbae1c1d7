"""Temporary escape: when it is started, where its goal is looked for, which cell is chosen, and how it ends."""
from planlib import *
from astar_lib import FMAX
from models import GRID
from p12 import reduce_fld
from p13 import grid_hooks, of_grid, grid_op, vec_is, coord, first_write
from p14 import num, lt, int_lt, lift_eq
from p15 import comp, minus, le, sq, heading, loops_left
from sweep import visits, stops, CELL
EXPLANATION = ('The update of the temporary goal is summarised over an arbitrary state of the node with all maps arbitrary; the loop over the cells is summarised by its '
               'iteration, the cells it looks at are compared with the cells of the range, and the kept cell with the least cost by induction.')
ASSUMPTIONS = ['callbacks run one at a time', 'real arithmetic', 'the bounds of the search do not overflow']
NS = 'planner_cspace::planner_3d::'
NOT_ESC, WITH, WITHOUT = 0, 1, 2


def check(ctx):
    P = Plan(ctx)
    ctx.part(asked, P)
    ctx.part(escape, P)
    ctx.part(states, P)


def hooks():
    h = grid_hooks()

    def ev(name):
        def hook(I, st, e, d, O, obj):
            w = O if O is not None else I.lval(obj, st)
            vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
            I.emit('call', 'dm-' + name, st, e['l'], args=vs, obj=w, decl=d)
            return None
        return hook
    for n in ('update', 'create', 'init', 'setParams'):
        h[NS + 'DistanceMap::' + n] = ev(n)

    def atan2(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        r = mk('direction', *vs)
        I.emit('call', 'direction', st, e['l'], args=vs, decl=d, val=leaf(r))
        return leaf(r)
    for n in ('atan2', 'atan2f', 'std::atan2', 'std::atan2f'):
        h[n] = atan2
    return h


def asked(ctx, P):
    """the trigger"""
    f = P.N.callback('temporary_escape')
    I, r, st = P.run(f, quiet=[('updateTemporaryEscapeGoal', (), ())], values=['metric2Grid'])
    es = by(I, 'updateTemporaryEscapeGoal')
    exactly(ctx, 'trigger', es, P.b0('has_map_'), f.name, 'the temporary goal is updated')
    once(ctx, 'trigger', es, f.name, 'the temporary goal is updated')
    want = mk('call', 'metric2Grid', mk('fld', P.f('start_'), 'pose'))
    for e in es:
        for g, t in cases(e.args[0]):
            ctx.ob('trigger', root(t) is want or not sat(AND(e.g, g)), at(e), 'for the cell %s' % show(t)[:200])
    ws = [w for w in written(I, st) if of_this([w])]
    ctx.ob('trigger', not ws, f.name, 'changes %s' % ', '.join(show(w) for w in ws[:4]))


def states(ctx, P):
    """what an escape tells"""
    def arg(f, i=0):
        return par(f, i)
    for n, want in (('isEscaping', lambda a: NOT(lift_eq(leaf(a), NOT_ESC))),):
        f = one_or_none(ctx, n)
        if f is None:
            continue
        I, r, st = P.run(f)
        legal = OR(*[lift_eq(leaf(arg(f)), k) for k in (NOT_ESC, WITH, WITHOUT)])
        same_bool(ctx, 'status-of-escape', r, want(arg(f)), f.name, n, legal)
    f = one_or_none(ctx, 'temporaryEscapeStatus2PlannerErrorStatus')
    if f is not None:
        I, r, st = P.run(f)
        a = arg(f)
        for k, w in ((NOT_ESC, GOING_WELL), (WITH, GOING_WELL), (WITHOUT, PATH_NOT_FOUND)):
            same_val(ctx, 'status-of-escape', r, leaf(num(w)), f.name, 'error of state %d' % k, lift_eq(leaf(a), k))


def one_or_none(ctx, n):
    fs = ctx.p.find(NS + n, None)
    return fs[0] if len(fs) == 1 else None


def size_i(P, o, i):
    return mk('elem', mk('fld', mk('fld', P.f(o), 'size_'), 'e_'), num(i))


def inner(P, o, v, rg):
    """the cell is at least rg away from the edge of a map"""
    g = AND(le(num(0), v[2]), int_lt(leaf(v[2]), leaf(size_i(P, o, 2))))
    for i in (0, 1):
        g = AND(g, le(rg, v[i]), int_lt(leaf(IN.t_add(v[i], rg)), leaf(size_i(P, o, i))))
    return g


def header_of(m):
    return mk('fld', m, 'header')


def escape(ctx, P):
    f = P.fn('updateTemporaryEscapeGoal')
    I, r, st = P.run(f, quiet=[('createCostEstimCache', (), ()), ('searchAvailablePos', (), (1,)), 'isPathFinishing'],
                     values=['metric2Grid', 'grid2MetricPose'], hooks=hooks(), container_index=GRID)
    site = f.name
    S = par(f, 0)
    s = [comp(S, i) for i in range(3)]
    ready = AND(P.b0('has_map_'), P.b0('has_goal_'), P.b0('has_start_'))
    go = AND(ready, NOT(P.b0('is_path_switchback_')))
    crowd = P.b0('enable_crowd_mode_')
    R = P.f('esc_range_')
    int_terms.add(R)
    valid = inner(P, 'cm_', [s[0], s[1], num(0)], R)
    A, B = AND(go, NOT(crowd)), AND(go, crowd, valid)
    goal, raw, orig = P.f('goal_'), P.f('goal_raw_'), P.f('goal_original_')
    es_, stat = P.f('escape_status_'), mk('fld', P.f('status_'), 'status')
    pose = lambda m: mk('fld', m, 'pose')
    caches = by(I, 'createCostEstimCache')
    # without crowd
    ss = by(I, 'searchAvailablePos')
    exactly(ctx, 'free-cell-around-robot', ss, A, site, 'a free cell is looked for')
    once(ctx, 'free-cell-around-robot', ss, site, 'a free cell is looked for')
    ok0, cell0 = FALSE, None
    for e in ss:
        ok0 = OR(ok0, AND(e.g, tobool(e.val)))
        k = cases(e.val)[0][1].args[1]
        cell0 = mk('after', k, 'searchAvailablePos', 1)
        ctx.ob('free-cell-around-robot', all(t is P.f('cm_') for g, t in cases(e.args[0])), at(e), 'in %s' % show(e.args[0])[:80])
        for i in range(3):
            same_val(ctx, 'free-cell-around-robot', I.freeze(coord(I, e.args[1], i)), leaf(s[i]), at(e), 'component %d of the middle' % i, e.g)
        for i, n in ((2, 'esc_range_'), (3, 'esc_angle_'), (4, 'relocation_acceptable_cost_'), (5, 'esc_range_min_')):
            same_val(ctx, 'free-cell-around-robot', e.args[i], leaf(P.f(n)), at(e), 'bound %d of the search' % i, e.g)
    # the cells
    gm = mk('call', 'metric2Grid', pose(orig))
    gc = [comp(gm, i) for i in range(3)]
    prepare(ctx, P, I, st, site, B, s, gc, R)
    found, cell, cost, back = choose(ctx, P, I, st, site, B, s, gc, R, caches)
    if cell is None:
        return
    left = loops_left(I)
    # goals
    F0 = AND(A, ok0)
    F1 = AND(B, found)
    backs = [e for e in caches if e.loops]
    last = [e for e in caches if not e.loops]
    exactly(ctx, 'goal-of-escape', last, OR(F0, F1), site, 'the costs to the goal are renewed', left)
    once(ctx, 'goal-of-escape', last, site, 'the costs to the goal are renewed')
    for e in caches:
        for i, a in enumerate(e.args):
            same_bool(ctx, 'goal-of-escape', a, TRUE, at(e), 'the goal has changed', e.g)
    isback = g_of(backs)
    for what, ev, g, p in (('free cell', [e for e in last if sat(AND(e.g, A))], F0, mk('call', 'grid2MetricPose', cell0) if cell0 is not None else None),
                           ('cell with least cost', [e for e in last if sat(AND(e.g, crowd))], F1, None)):
        for e in ev:
            t = then(I, e)
            for q, m in ((t, 'when the costs are renewed'), (st, 'at the end')):
                for o in (raw, goal):
                    v = val(I, q, pose(o))
                    if p is not None:
                        same_val(ctx, 'goal-of-escape', v, leaf(p), at(e), '%s %s: pose of %s' % (what, m, show(o)), AND(e.g, g, left))
                    else:
                        is_cell(ctx, I, v, cell, at(e), '%s %s: pose of %s' % (what, m, show(o)), AND(e.g, g, left))
                    same_val(ctx, 'goal-of-escape', val(I, q, header_of(o)), leaf(header_of(raw)), at(e), '%s %s: header of %s' % (what, m, show(o)), AND(e.g, g, left))
    for e in backs:
        for q, m in ((then(I, e), 'when the costs are renewed'), (st, 'at the end')):
            for o in (raw, goal):
                for n in ('pose', 'header'):
                    same_val(ctx, 'back-to-goal', val(I, q, mk('fld', o, n)), leaf(mk('fld', orig, n)), at(e), '%s: %s of %s' % (m, n, show(o)), e.g)
            same_val(ctx, 'back-to-goal', val(I, q, es_), leaf(num(NOT_ESC)), at(e), m + ': state', e.g)
        rs = [x for x in I.events if x.kind == 'return' and x.loops and sat(AND(x.g, e.g))]
        ctx.entail('back-to-goal', e.g, g_of(rs), at(e), 'goes on looking for a temporary goal')
    # states
    F = OR(F0, F1)
    same_val(ctx, 'state-of-escape', val(I, st, es_), leaf(num(WITHOUT)), site, 'state with a free cell', AND(F0, left))
    near = [e for e in by(I, 'isPathFinishing')]
    once(ctx, 'state-of-escape', near, site, 'nearness of the temporary goal')
    exactly(ctx, 'state-of-escape', near, F1, site, 'the nearness of the temporary goal is looked at', left)
    nb = FALSE
    for e in near:
        nb = OR(nb, AND(e.g, tobool(e.val)))
        for i in range(3):
            same_val(ctx, 'state-of-escape', I.freeze(coord(I, e.args[0], i)), leaf(s[i]), at(e), 'nearness of the robot: component %d' % i, e.g)
            same_val(ctx, 'state-of-escape', strip2(I.freeze(coord(I, e.args[1], i)), i, cell), leaf(cell[i]), at(e), 'nearness to: component %d' % i, AND(e.g, left))
        ctx.entail('state-of-escape', AND(e.g, lift_eq(val(I, then(I, e), es_), NOT_ESC)), FALSE, at(e), 'nearness with the tolerance of the original goal')
    static = mk('fld', P.f('cost_estim_cache_static_'), 'g_')
    here = mk('elem', static, mk('vec', s[0], s[1], num(0)))
    better = lt(leaf(cost), leaf(here))
    want = IN.ite(OR(nb, NOT(better)), leaf(num(WITHOUT)), leaf(num(WITH)))
    same_val(ctx, 'state-of-escape', val(I, st, es_), want, site, 'state with a chosen cell', AND(F1, left))
    fin = lift_eq(leaf(stat), FINISHING)
    same_val(ctx, 'leaves-finishing', val(I, st, stat), leaf(num(DOING)), site, 'status of a finishing planner', AND(F, fin, left))
    same_val(ctx, 'leaves-finishing', val(I, st, stat), leaf(stat), site, 'status', AND(F, NOT(fin), left))
    # nothing else
    quiet = AND(left, NOT(F), NOT(isback))
    for o in (raw, goal):
        for n in ('pose', 'header'):
            l = mk('fld', o, n)
            same_val(ctx, 'nothing-changes', val(I, st, l), leaf(l), site, 'without a temporary goal: %s' % show(l), AND(quiet, NOT(left_back(I, backs))))
    for l in (es_, stat):
        same_val(ctx, 'nothing-changes', val(I, st, l), leaf(l), site, 'without a temporary goal: %s' % show(l), AND(quiet, NOT(left_back(I, backs))))
    for n in ('pose', 'header'):
        l = mk('fld', orig, n)
        same_val(ctx, 'nothing-changes', val(I, st, l), leaf(l), site, 'the original goal: %s' % show(l))


def left_back(I, backs):
    return g_of([x for x in I.events if x.kind == 'return' and x.loops])


def is_cell(ctx, I, v, cell, site, what, pre):
    bad = []
    for g, t in cases(v):
        if not sat(AND(pre, g)):
            continue
        ok = t.op == 'call' and t.args[0] == 'grid2MetricPose'
        if ok:
            a = t.args[1]
            for i in range(3):
                x = strip2(I.freeze(coord(I, a if isinstance(a, N) else leaf(a), i)), i, cell)
                ok = ok and all(u is cell[i] or not sat(AND(pre, g, h)) for h, u in cases(x))
        if not ok:
            bad.append(show(t)[:200])
    ctx.ob('goal-of-escape', not bad, site, '%s is %s' % (what, '; '.join(bad[:2])))


def strip2(v, i, cell):
    return v


def prepare(ctx, P, I, st, site, B, s, gc, R):
    """distance map of the static map, and the map of the cells that can be reached"""
    static, arr = P.f('cost_estim_cache_static_'), P.f('arrivable_map_')
    reg = P.f('cost_estim_cache_static_update_')
    of = lambda n, o: [(e, AND(e.g, g)) for e in I.events if e.kind == 'call' and e.name == 'dm-' + n for g, t in cases(e.obj) if t is o]
    rem = P.b0('remember_updates_')
    us = of('update', static)
    exactly(ctx, 'costs-of-static-map', OR(*[g for e, g in us]) if us else FALSE, B, site, 'costs of the static map are brought up to date')
    once(ctx, 'costs-of-static-map', [e for e, g in us], site, 'costs of the static map are brought up to date')
    for e, g in us:
        vec_is(ctx, 'costs-of-static-map', I, e.args[0], [s[0], s[1], num(0)], at(e), 'from', g)
        vec_is(ctx, 'costs-of-static-map', I, e.args[1], gc, at(e), 'to', g)
        c = lambda m, i: I.freeze(I.getelem(I.getfld(I.getfld(e.args[2], m), 'e_'), leaf(num(i))))
        for m in ('min', 'max'):
            for i in (0, 1):
                same_val(ctx, 'costs-of-static-map', c(m, i), leaf(comp(mk('fld', reg, m), i)), at(e), 'changed region %s %d' % (m, i), AND(g, rem))
        empty = FALSE
        for i in (0, 1):
            empty = OR(empty, tobool(cmpv('>', c('min', i), c('max', i), True)))
        ctx.entail('costs-of-static-map', AND(g, NOT(rem)), empty, at(e), 'a region is taken for changed though updates are not remembered')
    for i, n in ((0, 'width'), (1, 'height')):
        lo, hi = comp(mk('fld', reg, 'min'), i), comp(mk('fld', reg, 'max'), i)
        same_val(ctx, 'costs-of-static-map', val(I, st, lo), leaf(mk('fld', P.f('map_info_'), n)), site, 'changed region afterwards', AND(B, rem))
        same_val(ctx, 'costs-of-static-map', val(I, st, hi), leaf(num(0)), site, 'changed region afterwards', AND(B, rem))
        for l in (lo, hi):
            same_val(ctx, 'costs-of-static-map', val(I, st, l), leaf(l), site, 'changed region afterwards', NOT(AND(B, rem)))
    local = P.f('cm_local_esc_')
    w = IN.t_add(IN.t_add(R, R), num(1))
    size = [IN.t_add(w, num(1)), IN.t_add(w, num(1)), num(1)]
    org = [minus(s[0], R), minus(s[1], R), num(0)]
    a = grid_op(ctx, 'reachable-cells', I, 'reset', local, B, site)
    b = grid_op(ctx, 'reachable-cells', I, 'copy_partially', local, B, site)
    if a is None or b is None:
        return
    vec_is(ctx, 'reachable-cells', I, a.args[0], size, at(a), 'size of the map', B)
    vec_is(ctx, 'reachable-cells', I, b.args[0], [num(0)] * 3, at(b), 'copied to', B)
    ctx.ob('reachable-cells', all(t is P.f('cm_rough_') for g, t in cases(b.args[1])), at(b), 'copied from %s' % show(b.args[1])[:80])
    vec_is(ctx, 'reachable-cells', I, b.args[2], org, at(b), 'first copied cell', B)
    vec_is(ctx, 'reachable-cells', I, b.args[3], [IN.t_add(org[0], w), IN.t_add(org[1], w), num(0)], at(b), 'end of the copied cells', B)
    seq = {}
    for n in ('setParams', 'init', 'create'):
        es = of(n, arr)
        exactly(ctx, 'reachable-cells', OR(*[g for e, g in es]) if es else FALSE, B, site, '%s of the reachable cells' % n)
        once(ctx, 'reachable-cells', [e for e, g in es], site, n)
        if len(es) != 1:
            return
        seq[n] = es[0][0]
    ctx.ob('reachable-cells', a.seq < b.seq < seq['create'].seq and seq['setParams'].seq < seq['create'].seq and seq['init'].seq < seq['create'].seq, at(seq['create']),
           'the reachable cells are found before the map is ready')
    e = seq['create']
    for i in (0, 1):
        vec_is(ctx, 'reachable-cells', I, e.args[i], [R, R, num(0)], at(e), 'reachable from', B)
    e = seq['setParams']
    same_val(ctx, 'reachable-cells', e.args[0], leaf(P.f('cc_')), at(e), 'coefficients', B)
    e = seq['init']
    same_val(ctx, 'reachable-cells', e.args[0], leaf(P.f('model_')), at(e), 'model', B)
    p = lambda n: I.freeze(I.getfld(e.args[1], n))
    for n, t in (('euclid_cost', P.f('ec_')), ('range', num(0)), ('local_range', num(0)), ('longcut_range', R), ('resolution', mk('fld', P.f('map_info_'), 'linear_resolution'))):
        same_val(ctx, 'reachable-cells', p(n), leaf(t), at(e), n, B)
    for i in range(3):
        same_val(ctx, 'reachable-cells', I.freeze(I.getelem(I.getfld(I.getfld(e.args[1], 'size'), 'e_'), leaf(num(i)))), leaf(size[i]), at(e), 'size', B)
    # the maps are ready when they are read
    first = {}
    for x in I.events:
        if x.kind == 'index':
            for g, t in cases(x.obj):
                first.setdefault(t, x)
    for t, done in ((mk('fld', arr, 'g_'), seq['create']), (mk('fld', static, 'g_'), us[0][0] if us else None)):
        if t in first and done is not None:
            ctx.ob('reachable-cells', done.seq < first[t].seq, at(first[t]), 'costs are read before they are brought up to date')


def choose(ctx, P, I, st, site, B, s, gc, R, caches):
    none = FALSE, None, None, FALSE
    arr = mk('fld', P.f('arrivable_map_'), 'g_')
    static = mk('fld', P.f('cost_estim_cache_static_'), 'g_')
    rd = [e for e in I.events if e.kind == 'index' and any(t is arr for g, t in cases(e.obj))]
    ctx.ob('cells-of-range', len(rd) == 1 and len(rd[0].loops) == 2, site, 'reachability is looked up in %d places' % len(rd))
    if len(rd) != 1 or len(rd[0].loops) != 2:
        return none
    e = rd[0]
    ls = e.loops
    kc = cases(e.args[0])
    ctx.ob('cells-of-range', len(kc) == 1 and kc[0][1].op == 'vec', at(e), 'cell %s' % show(e.args[0])[:200])
    if len(kc) != 1 or kc[0][1].op != 'vec':
        return none
    key = kc[0][1]
    ctx.ob('cells-of-range', key.args[2] is num(0), at(e), 'heading %s' % show(key)[:200])
    te = [IN.t_add(key.args[0], minus(s[0], R)), IN.t_add(key.args[1], minus(s[1], R))]
    mi = P.f('map_info_')
    rg = P.f('range_')

    def quant(c):
        d2 = IN.t_add(sq(minus(c[0], s[0])), sq(minus(c[1], s[1])))
        q = AND(le(d2, sq(R)), inner(P, 'cm_rough_', [c[0], c[1], num(0)], rg))
        for x, n in ((c[0], 'width'), (c[1], 'height')):
            q = AND(q, le(num(0), x), int_lt(leaf(x), leaf(mk('fld', mi, n))))
        return q, d2
    vs = visits([leaf(te[0]), leaf(te[1])], e.g, ls)
    Q, _ = quant(CELL)
    near = AND(*[AND(le(minus(CELL[i], s[i]), R), le(minus(s[i], CELL[i]), R)) for i in (0, 1)])
    seen = OR(*[v.g for v in vs]) if vs else FALSE
    ctx.entail('cells-of-range', AND(B, seen), Q, at(e), 'a cell that must not be chosen is looked at')
    ctx.entail('cells-of-range', AND(B, Q, near), seen, at(e), 'a cell of the range is left out')
    # one iteration
    L = ls[-1]
    _, d2 = quant(te)
    far = mk('elem', arr, key)
    reach = AND(e.g, NOT(IN.eq_leaf(far, FMAX)))
    at_goal = AND(lift_eq(leaf(minus(te[0], gc[0])), 0), lift_eq(leaf(minus(te[1], gc[1])), 0))
    free_goal = tobool(cmpv('<', leaf(mk('elem', P.f('cm_'), mk('vec', *gc))), leaf(num(100)), True))
    back = AND(reach, at_goal, free_goal)
    bs = [x for x in caches if x.loops]
    exactly(ctx, 'back-to-goal', bs, back, site, 'the original goal is taken again')
    for v in vs:
        for l, E in stops(v.loops, v.mp, AND(B, Q, NOT(free_goal))):
            ctx.ob('cells-of-range', False, '%s:%d' % (l.file, l.line), 'the search ends early: %s' % witness(E)[:200])
    ctx.entail('cells-of-range', AND(L.body_g, NOT(back)), L.next.g if L.next is not None else FALSE, site, 'the search ends early')
    # the way down
    c = mk('elem', static, mk('vec', te[0], te[1], num(0)))
    grad = [leaf(num(0)), leaf(num(0))]
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            if dx == 0 and dy == 0:
                continue
            c2 = mk('elem', static, mk('vec', IN.t_add(te[0], num(dx)), IN.t_add(te[1], num(dy)), num(0)))
            un = IN.eq_leaf(c2, FMAX)
            for k, d in ((0, dx), (1, dy)):
                if d:
                    up = minus(c, c2) if d > 0 else minus(c2, c)
                    grad[k] = lift2(lambda a, b: leaf(IN.t_add(a, b)), grad[k], IN.ite(un, leaf(num(0)), leaf(up)))
    ds = [x for x in I.events if x.kind == 'call' and x.name == 'direction']
    ctx.ob('heading-down', len(ds) == 1 and ds[0].loops and ds[0].loops[-1] is L, site, 'the direction is computed in %d places' % len(ds))
    if len(ds) != 1:
        return none
    D = ds[0]
    for k, j in ((0, 1), (1, 0)):
        bad = AND(D.g, lift2(lambda a, b: FALSE if a is b else TRUE, D.args[j], grad[k]))
        ctx.ob('heading-down', not sat(bad), at(D), 'component %d of the way down, with %s' % (k, witness(bad)[:300] if sat(bad) else ''))
    flat = AND(*[tobool(cmpv('==', g, leaf(num(0)), False)) for g in grad])
    angle = mk('fld', mi, 'angle')
    hs = [x for x in I.events if x.kind == 'index' and any(t is P.f('cm_') for g, t in cases(x.obj)) and x.loops and x.seq > D.seq]
    ctx.ob('heading-down', len(hs) == 1, site, 'the occupancy of the cell is looked up in %d places' % len(hs))
    if len(hs) != 1:
        return none
    H = hs[0]
    hc = [(g, t) for g, t in cases(H.args[0]) if sat(AND(H.g, g))]
    ok = len(hc) == 1 and hc[0][1].op == 'vec' and hc[0][1].args[0] is te[0] and hc[0][1].args[1] is te[1]
    ctx.ob('heading-down', ok, at(H), 'occupancy of %s' % show(H.args[0])[:300])
    if not ok:
        return none
    hd = hc[0][1].args[2]
    h = heading(hd, angle) if isinstance(hd, T) else None
    want = IN.fn_leaf('trunc', IN.t_fdiv(cases(D.val)[0][1], mk('fld', mi, 'angular_resolution')))
    want2 = mk('trunc', IN.t_fdiv(cases(D.val)[0][1], mk('fld', mi, 'angular_resolution')))
    ctx.ob('heading-down', h is not None and (h is want or h is want2), at(H), 'heading %s' % show(hd)[:300])
    acc = leaf(P.f('relocation_acceptable_cost_'))
    low = lambda k: tobool(cmpv('<', leaf(k), acc, True))
    rough = low(mk('elem', P.f('cm_rough_'), mk('vec', te[0], te[1], num(0))))
    free = low(mk('elem', P.f('cm_'), hc[0][1]))
    other = NOT(AND(lift_eq(leaf(minus(te[0], s[0])), 0), lift_eq(leaf(minus(te[1], s[1])), 0)))
    rmin = P.f('esc_range_min_')
    apart = le(sq(rmin), d2)
    # least cost
    kept = None
    for loc in L.phis:
        if not isinstance(loc, T):
            continue
        try:
            v = I.freeze(I.read1(loc, L.next))
        except Unsupported:
            continue
        if any(t is c for g, t in cases(v)):
            ctx.ob('least-cost', kept is None, site, 'the least cost is kept in several places')
            kept = (loc, v)
    ctx.ob('least-cost', kept is not None, site, 'the least cost is not kept')
    if kept is None:
        return none
    loc, v = kept
    ph = [mk('phi', l.id, loc) for l in ls]
    better = AND(reach, NOT(back), other, apart, rough, NOT(flat), free, lt(leaf(c), leaf(ph[-1])))
    same_val(ctx, 'least-cost', v, leaf(c), site, 'least cost', AND(L.next.g, better))
    same_val(ctx, 'least-cost', v, leaf(ph[-1]), site, 'least cost', AND(L.next.g, NOT(better)))
    out = None
    for o in L.phis:
        while isinstance(o, T) and o.op in ('fld', 'elem') and isinstance(o.args[0], T):
            o = o.args[0]
        if not isinstance(o, T) or o is loc or o is THIS:
            continue
        try:
            x = I.freeze(I.read1(comp(o, 0), L.next))
        except Unsupported:
            continue
        if any(t is te[0] and sat(AND(g, better)) for g, t in cases(x)):
            out = o
    ctx.ob('least-cost', out is not None, site, 'the cell is not kept with its cost')
    if out is None:
        return none
    cell = [te[0], te[1], hd]
    for i in range(3):
        o = comp(out, i)
        x = I.freeze(I.read1(o, L.next))
        same_val(ctx, 'least-cost', x, leaf(cell[i]), site, 'component %d of the cell' % i, AND(L.next.g, better))
        same_val(ctx, 'least-cost', x, I.freeze(I.read1(o, L.head)), site, 'component %d of the cell' % i, AND(L.next.g, NOT(better)))
    for l in [loc] + [comp(out, i) for i in range(3)]:
        same_val(ctx, 'least-cost', I.freeze(I.read1(l, ls[1].entry)), I.freeze(I.read1(l, ls[0].head)), site, 'kept cell when a row begins', ls[1].entry.g)
        same_val(ctx, 'least-cost', I.freeze(I.read1(l, ls[0].next)), I.freeze(I.read1(l, ls[1].head)), site, 'kept cell when a row ends', ls[0].next.g)
    same_val(ctx, 'least-cost', I.freeze(I.read1(loc, ls[0].entry)), leaf(FMAX), site, 'least cost at the beginning', ls[0].entry.g)
    found = NOT(IN.eq_leaf(ph[0], FMAX))
    return found, [cases(I.freeze(I.read1(comp(out, i), ls[0].head)))[0][1] for i in range(3)], ph[0], back
