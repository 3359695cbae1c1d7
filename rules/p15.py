"""Making a plan: start cells, relocation to free cells, nearness of the goal, and what the outcome of a plan is."""
from planlib import *
from astar_lib import FMAX
from models import GRID
from fractions import Fraction
from p14 import num, lt, int_lt, iff, lift_eq, reduce
EXPLANATION = ('The making of a plan is summarised over an arbitrary state of the node with the start cells, the search and the distance map as arbitrary outcomes; '
               'the choice of start cells and the search for a free cell are summarised with the occupancy of every cell arbitrary.')
ASSUMPTIONS = ['callbacks run one at a time', 'real arithmetic', 'the bounds of the search do not overflow']
NS = 'planner_cspace::planner_3d::'
OCCUPIED, FINISH, NORMAL = 0, 1, 2


def check(ctx):
    P = Plan(ctx)
    ctx.part(decisions, P)
    ctx.part(finishing, P)
    ctx.part(starts, P)
    ctx.part(free_cell, P)
    ctx.part(relocating, P)


def plan_hooks(P):
    seen = {}

    def search(I, st, e, d, O, obj):
        w = I.freeze(I.lval(obj, st)) if O is None else O
        vs = [I.freeze(I.argval(a, st)) for a in e['a']]
        k = I.fresh()
        I.emit('call', 'search', st, e['l'], args=tuple(vs), decl=d, obj=w, val=leaf(mk('call', 'search', k)))
        lam = vs[4].leaf.args[0] if vs[4].leaf is not None and vs[4].leaf.op in ('lambda', 'lam', 'closure') else None
        seen[id(I)] = (vs[4], lam)
        if lam is not None:
            s2 = IN.State(st.g, dict(st.mem))
            I.emit('mark', 'progress', s2, e['l'])
            r = I.call_lambda(lam, [], s2, e['l'], argvals=[leaf(mk('progress', 0)), leaf(mk('progress', 1))])
            I.emit('mark', 'progressed', s2, e['l'], val=tobool(r))
        I.write(I.lval(e['a'][2], st), leaf(mk('after', k, 'search', 2)), st)
        return I.typed(leaf(mk('call', 'search', k)), I.et(e))

    def append(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        k = I.fresh()
        I.emit('call', 'append', st, e['l'], args=vs, decl=d, val=leaf(mk('call', 'append', k)))
        I.write(I.lval(e['a'][2], st), leaf(mk('after', k, 'append', 2)), st)
        return None

    def clear(I, st, e, d, O, obj):
        I.emit('call', 'forget', st, e['l'], args=(), decl=d)
        return None

    def preserved(I, st, e, d, O, obj):
        return leaf(mk('preserved'))

    def interpolate(I, st, e, d, O, obj):
        return liftn(lambda xs: mk('call', 'interpolate', *xs), [I.freeze(I.argval(a, st)) for a in e['a']])
    h = {'planner_cspace::GridAstar::search': search, NS + 'grid_metric_converter::appendGridPath2MetricPath': append,
         NS + 'StartPosePredictor::clear': clear, NS + 'StartPosePredictor::getPreservedPath': preserved}
    for c in ('GridAstarModel3D', 'GridAstarModel2D', 'GridAstarModelBase'):
        h[NS + c + '::interpolatePath'] = interpolate
    return h


def decisions(ctx, P):
    f = P.fn('makePlan')
    err, sta = mk('fld', P.f('status_'), 'error'), mk('fld', P.f('status_'), 'status')
    Q = [('buildStartPoses', (), (2,)), 'publishStartAndGoalMarkers', ('createCostEstimCache', ('cost_estim_cache_created_', 'is_start_occupied_', 'cnt_stuck_', 'escape_status_', 'goal_', 'goal_raw_'), ()),
         ('updateTemporaryEscapeGoal', ('escape_status_', 'goal_', 'goal_raw_'), ()), 'publishEmptyPath', 'publishFinishPath', 'publishDebug', 'clearHysteresis']
    I, r, st = P.run(f, quiet=Q, values=['metric2Grid', 'grid2MetricPose'], hooks=plan_hooks(P), container_index=GRID)
    site = f.name
    s_m, e_m, path = par(f, 0), par(f, 1), par(f, 2)
    hyst = tobool(leaf(par(f, 3)))
    b0 = P.b0
    sg, eg = mk('call', 'metric2Grid', s_m), mk('call', 'metric2Grid', e_m)
    bs = by(I, 'buildStartPoses')
    ctx.ob('start-cells', len(bs) == 1, site, '%d choices of start cells' % len(bs))
    if len(bs) != 1:
        return
    for i, t in ((0, s_m), (1, e_m)):
        same_val(ctx, 'start-cells', bs[0].args[i], leaf(t), at(bs[0]), 'pose %d' % i, bs[0].g)
    ctx.ob('start-cells', bs[0].g is TRUE, at(bs[0]), 'no choice of start cells')
    k = cases(bs[0].val)[0][1].args[1]
    cells = mk('after', k, 'buildStartPoses', 2)
    stat = leaf(mk('call', 'buildStartPoses', k))
    occ, fin = lift_eq(stat, OCCUPIED), lift_eq(stat, FINISH)
    near = AND(NOT(occ), fin)
    esc = NOT(lift_eq(leaf(P.f('escape_status_')), 0))
    cont = AND(P.run0(P.actT), int_lt(leaf(num(0)), leaf(reduce(mk('deref', P.f('goal_tolerant_')), 'continuous_movement_mode'))))
    escaped = AND(near, esc)
    arrived = AND(near, NOT(esc), NOT(cont))
    goes_on = AND(near, NOT(esc), cont)
    act = OR(AND(NOT(occ), NOT(fin)), goes_on)
    # near the goal
    ends_only_running(ctx, I, 'ends-only-running')
    exactly(ctx, 'continuous-mode', ended(I.events, P.actT, 'succeeded'), goes_on, site, 'success in continuous mode')
    ctx.entail('continuous-mode', AND(ended(I.events, P.actT), NOT(goes_on)), FALSE, site, 'the action is ended')
    ctx.entail('continuous-mode', ended(I.events, P.act), FALSE, site, 'the action is ended')
    exactly(ctx, 'final-orientation', by(I, 'publishFinishPath'), arrived, site, 'path to the final orientation')
    same_val(ctx, 'final-orientation', val(I, st, sta), leaf(num(FINISHING)), site, 'status', arrived)
    same_val(ctx, 'final-orientation', val(I, st, sta), leaf(sta), site, 'status', NOT(arrived))
    same_bool(ctx, 'result', r, TRUE, site, 'result', OR(arrived, escaped))
    same_bool(ctx, 'result', r, FALSE, site, 'result', occ)
    # the temporary goal is reached
    cc = by(I, 'createCostEstimCache')
    exactly(ctx, 'escape-ends', cc, escaped, site, 'distance map for the original goal')
    for e in cc:
        t = then(I, e)
        same_val(ctx, 'escape-ends', val(I, t, P.f('escape_status_')), leaf(num(0)), at(e), 'escape', e.g)
        for n in ('goal_', 'goal_raw_'):
            for p in ('pose', 'header'):
                same_val(ctx, 'escape-ends', I.freeze(I.read1(reduce(P.f(n), p), t)), leaf(reduce(P.f('goal_original_'), p)), at(e), '%s of %s' % (p, n), e.g)
    # reachable
    lost = unreachable(ctx, P, I, sg, eg)
    if lost is None:
        return
    lost = AND(act, lost)
    up = by(I, 'updateTemporaryEscapeGoal')
    exactly(ctx, 'unreachable-goal', up, AND(lost, b0('temporary_escape_')), site, 'escape')
    for e in up:
        same_val(ctx, 'unreachable-goal', e.args[0], leaf(sg), at(e), 'start of the escape', e.g)
    forget = [e for e in I.events if e.kind == 'call' and e.name == 'forget']
    exactly(ctx, 'unreachable-goal', forget, lost, site, 'forgetting of the preserved path')
    same_bool(ctx, 'result', r, FALSE, site, 'result', lost)
    # search
    go = AND(act, NOT(lost))
    sr = [e for e in I.events if e.kind == 'call' and e.name == 'search']
    ctx.ob('search', len(sr) == 1, site, '%d searches' % len(sr))
    if len(sr) != 1:
        return
    S = sr[0]
    ctx.ob('search', not S.loops, at(S), 'searches repeatedly')
    same = same_start(ctx, I, S, cells, eg)
    if same is None:
        return
    same, over = same
    exactly(ctx, 'search', S.g, AND(go, NOT(same)), site, 'search', over)
    ok = tobool(S.val)
    ctx.ob('search', all(t is P.f('as_') for g, t in cases(S.obj)), at(S), 'search object %s' % show(S.obj)[:100])
    for i, t in ((0, cells), (1, eg)):
        same_val(ctx, 'search', S.args[i], leaf(t), at(S), 'argument %d' % i, S.g)
    ctx.entail('search', S.g, tobool(cmpv('<=', msgf(I, S.args[2], '#size'), leaf(num(0)), True)), at(S), 'the path is not empty before the search')
    lr = lift2(lambda a, b: leaf(IN.t_add(a, b)), leaf(P.f('local_range_')), leaf(P.f('range_')))
    ec = leaf(mk('elem', mk('fld', P.f('ec_'), 'e_'), num(0)))
    c0 = leaf(start_cost(P, sg))
    want = lift2(lambda a, b: leaf(IN.t_add(a, IN.t_neg(b))), c0, lift2(lambda a, b: leaf(IN.t_mul(a, b)), lr, ec))
    same_val(ctx, 'search', S.args[5], want, at(S), 'limit of the local range', S.g)
    for g, t in cases(S.args[6]):
        ctx.ob('search', not sat(AND(g, S.g)) or IN.t_mul(t, P.f('freq_min_')) is num(1), at(S), 'time limit %s' % show(t)[:200])
    same_bool(ctx, 'search', S.args[7], b0('find_best_'), at(S), 'take the best found', S.g)
    for e in I.events:
        if e.kind == 'call' and e.name.endswith('::enableHysteresis'):
            same_bool(ctx, 'search', e.args[0], AND(hyst, b0('has_hysteresis_map_')), at(e), 'use of the hysteresis', e.g)
    en = [e for e in I.events if e.kind == 'call' and e.name.endswith('::enableHysteresis') and e.seq < S.seq]
    ctx.entail('search', S.g, g_of(en), at(S), 'the hysteresis is not set')
    progress(ctx, P, I, S)
    fail = AND(S.g, NOT(ok))
    same_bool(ctx, 'result', r, b0('find_best_'), site, 'result', fail)
    same_bool(ctx, 'result', r, TRUE, site, 'result', AND(go, over, NOT(fail)))
    # error
    e1 = val(I, st, err)
    same_val(ctx, 'error', e1, leaf(num(IN_ROCK)), site, 'error', occ)
    same_val(ctx, 'error', e1, leaf(num(PATH_NOT_FOUND)), site, 'error', OR(lost, fail))
    same_val(ctx, 'error', e1, leaf(err), site, 'error', AND(OR(NOT(go), over), NOT(OR(occ, lost, fail))))
    # path
    ap = [e for e in I.events if e.kind == 'call' and e.name == 'append']
    left = loops_left(I)
    exactly(ctx, 'path', ap, AND(go, NOT(AND(fail, NOT(b0('find_best_'))))), site, 'path of the found cells', left)
    once(ctx, 'path', ap, site, 'path of the found cells')
    ks = cases(S.val)[0][1].args[1]
    for e in ap:
        same_val(ctx, 'path', e.args[0], leaf(P.f('map_info_')), at(e), 'map', e.g)
        for g, t in cases(e.args[1]):
            if sat(AND(g, e.g)):
                ctx.ob('path', t.op == 'call' and t.args[0] == 'interpolate', at(e), 'cells %s' % show(t)[:200])
                if t.op == 'call' and t.args[0] == 'interpolate':
                    same_path(ctx, I, t.args[1], AND(g, e.g), (NOT(same), mk('after', ks, 'search', 2), same, eg), at(e))
        same_val(ctx, 'path', msgf(I, e.args[2], 'poses', ty=None), leaf(reduce(mk('preserved'), 'poses')), at(e), 'preserved part', e.g)
        same_val(ctx, 'path', msgf(I, e.args[2], 'header', ty=None), leaf(reduce(path, 'header')), at(e), 'header', e.g)
        kp = cases(e.val)[0][1].args[1]
        same_val(ctx, 'path', I.freeze(I.read1(path, st)), leaf(mk('after', kp, 'append', 2)), site, 'path', e.g)
    if ap:
        n0 = I.freeze(I.read1(reduce(path, 'poses'), st))
        same_val(ctx, 'path', n0, leaf(reduce(path, 'poses')), site, 'poses without a plan', AND(left, NOT(g_of(ap))))
    # hysteresis
    done = AND(g_of(ap), hyst)
    cl = by(I, 'clearHysteresis')
    exactly(ctx, 'hysteresis', cl, done, site, 'clearing of the hysteresis', left)
    same_bool(ctx, 'hysteresis', bval(I, st, P.f('has_hysteresis_map_')), OR(b0('has_hysteresis_map_'), done), site, 'presence of the hysteresis', left)
    for e in I.events:
        if e.kind == 'store' and e.loc is not None and cl and any(inside(t, P.f('cm_hyst_')) for g, t in cases(e.loc)):
            ctx.ob('hysteresis', all(c.seq < e.seq for c in cl), at(e), 'cleared after drawing')


def loops_left(I):
    """what is known once loops are left"""
    g = TRUE
    for L in I.loop_info:
        if L.exits:
            g = AND(g, OR(NOT(L.entry.g), *[x.g for x in L.exits]))
    return g


def start_cost(P, sg):
    x = lambda i: mk('elem', mk('fld', sg, 'e_'), num(i))
    return mk('elem', mk('fld', P.f('cost_estim_cache_'), 'g_'), mk('vec', x(0), x(1), num(0)))


def unreachable(ctx, P, I, sg, eg):
    for e in I.events:
        if e.kind == 'index' and all(t is P.f('cm_') for g, t in cases(e.obj)):
            break
    else:
        ctx.ob('unreachable-goal', False, 'makePlan', 'the occupancy of the goal is not looked at')
        return None
    ctx.ob('unreachable-goal', all(root(t) is eg for g, t in cases(e.args[0])), at(e), 'cell %s' % show(e.args[0])[:200])
    occ = mk('elem', P.f('cm_'), cases(e.args[0])[0][1])
    full = tobool(cmpv('<=', leaf(num(100)), leaf(occ), True))
    return OR(IN.eq_leaf(start_cost(P, sg), FMAX), full)


def same_start(ctx, I, S, cells, eg):
    """guard: no search because a start cell is the goal"""
    def looks(L, g):
        return any(isinstance(t, T) and t.op == 'elem' and t.args[0] is cells and t.args[1] is L.ind for t in subterms(g))
    ls = []
    for L in I.loop_info:
        if L.next is None or L.line > S.line:
            continue
        flags = []
        for loc in L.phis:
            try:
                v = I.freeze(I.read1(loc, L.next))
                w = I.freeze(I.read1(loc, L.head))
            except Unsupported:
                continue
            if looks(L, v) and all(t.op in ('true', 'false') for g, t in cases(tobool(v))):
                flags.append((loc, tobool(v), tobool(w)))
        if looks(L, L.next.g) or flags:
            ls.append((L, flags))
    if len(ls) != 1:
        ctx.ob('start-is-goal', False, 'makePlan', 'start cells are compared with the goal in %d loops' % len(ls))
        return None
    L, flags = ls[0]
    v = mk('fld', mk('elem', cells, L.ind), 'v_')
    x = lambda o, i: mk('elem', mk('fld', o, 'e_'), num(i))
    eq = AND(*[tobool(cmpv('==', leaf(x(v, i)), leaf(x(eg, i)), True)) for i in range(3)])
    full = int_lt(leaf(L.ind), leaf(mk('fld', cells, '#size')))
    site = '%s:%d' % (L.file, L.line)
    ctx.entail('start-is-goal', L.cond, full, site, 'compares more than the start cells')
    if not looks(L, L.next.g):
        loc, new, old = flags[0]
        ctx.entail('start-is-goal', AND(L.body_g, eq), new, site, 'a start cell that is the goal is not noticed')
        ctx.entail('start-is-goal', AND(L.body_g, old), new, site, 'a start cell that is the goal is forgotten')
        ctx.entail('start-is-goal', AND(L.body_g, new), OR(eq, old), site, 'a start cell is taken for the goal')
        ctx.entail('start-is-goal', AND(full, NOT(old)), L.cond, site, 'start cells are left out')
        ctx.entail('start-is-goal', L.body_g, L.next.g, site, 'start cells are left out')
        ctx.entail('start-is-goal', AND(L.entry.g, tobool(I.freeze(I.read1(loc, L.entry)))), FALSE, site, 'the goal is found before looking')
        return old, NOT(L.cond)
    ctx.entail('start-is-goal', AND(L.body_g, NOT(eq)), L.next.g, site, 'not all start cells are compared with the goal')
    ctx.entail('start-is-goal', AND(L.next.g, eq), FALSE, site, 'a start cell that is the goal is not noticed')
    ctx.entail('start-is-goal', full, L.cond, site, 'start cells are left out')
    return full, TRUE


def same_path(ctx, I, t, g, want, site):
    """path handed to the interpolation: the found one, or the goal alone"""
    S, after, same, eg = want
    n = I.freeze(I.getfld(leaf(t), '#size'))
    same_val(ctx, 'path', n, leaf(mk('fld', after, '#size')), site, 'number of cells', AND(g, S))
    same_val(ctx, 'path', n, leaf(num(1)), site, 'number of cells when start and goal are the same', AND(g, same))
    for i in (0, 1, 2):
        x = I.freeze(I.getelem(leaf(t), leaf(num(i))))
        same_val(ctx, 'path', x, leaf(mk('elem', after, num(i))), site, 'cell %d' % i, AND(g, S))
        if i == 0:
            same_val(ctx, 'path', lift1(lambda u: leaf(root(u)), x), leaf(eg), site, 'cell when start and goal are the same', AND(g, same))


def progress(ctx, P, I, S):
    a = [e for e in I.events if e.kind == 'mark' and e.name == 'progress']
    b = [e for e in I.events if e.kind == 'mark' and e.name == 'progressed']
    if len(a) != 1 or len(b) != 1:
        ctx.ob('search-progress', False, at(S), 'the function called during the search is unknown: %s' % show(S.args[4])[:200])
        return
    es = [e for e in by(I, 'publishEmptyPath') if a[0].seq < e.seq < b[0].seq]
    exactly(ctx, 'search-progress', es, a[0].g, at(S), 'stop while searching')
    late = AND(a[0].g, NOT(b[0].val))
    ts = [u for u in subterms(late) if isinstance(u, T) and u.op == 'call' and 'count' in str(u.args[0])]
    ctx.ob('search-progress', len(ts) == 1, at(S), '%d durations' % len(ts))
    for t in ts:
        same_bool(ctx, 'search-progress', NOT(b[0].val), lt(leaf(P.f('search_timeout_abort_')), leaf(t)), at(S), 'abort', a[0].g)


def comp(o, i):
    return mk('elem', mk('fld', o, 'e_'), num(i))


def minus(a, b):
    return IN.t_add(a, IN.t_neg(b))


def le(a, b):
    return tobool(cmpv('<=', a if isinstance(a, N) else leaf(a), b if isinstance(b, N) else leaf(b), True))


def sq(t):
    return IN.t_mul(t, t)


def finishing(ctx, P):
    f = P.fn('isPathFinishing')
    I, r, st = P.run(f, container_index=GRID)
    site = f.name
    s, e = par(f, 0), par(f, 1)
    mi = P.f('map_info_')
    tol = reduce(mk('deref', P.f('goal_tolerant_')), 'goal_tolerance_lin'), reduce(mk('deref', P.f('goal_tolerant_')), 'goal_tolerance_ang')
    res = mk('fld', mi, 'linear_resolution'), mk('fld', mi, 'angular_resolution')
    esc = NOT(lift_eq(leaf(P.f('escape_status_')), 0))
    tolerant = P.run0(P.actT)
    rnd = [ints_of(IN.fn_leaf('round', IN.t_fdiv(t, q))) for t, q in zip(tol, res)]
    for t in rnd:
        int_terms.add(t)
    d2 = IN.t_add(sq(minus(comp(s, 0), comp(e, 0))), sq(minus(comp(s, 1), comp(e, 1))))
    h = mk('cycs', minus(comp(s, 2), comp(e, 2)), mk('fld', mi, 'angle'))
    int_terms.add(h)
    for what, g, lin, ang in (('escaping', esc, P.f('temporary_escape_tolerance_lin_'), P.f('temporary_escape_tolerance_ang_')),
                              ('goal with tolerance', AND(NOT(esc), tolerant), rnd[0], rnd[1]),
                              ('otherwise', AND(NOT(esc), NOT(tolerant)), P.f('goal_tolerance_lin_'), P.f('goal_tolerance_ang_'))):
        near = AND(le(d2, sq(lin)), le(h, ang), le(IN.t_neg(h), ang))
        pos = AND(le(num(0), ang))
        same_bool(ctx, 'near-the-goal', r, near, site, 'near the goal (%s)' % what, AND(g, pos))


def heading(t, angle):
    """argument of a heading that is made cyclic over the headings of the map"""
    return t.args[0] if t.op == 'cycu' and t.args[1] is angle else None


def in_map(P, x, y, a):
    """guard: the cell can be looked at"""
    z = lambda i: mk('elem', mk('fld', mk('fld', P.f('cm_'), 'size_'), 'e_'), num(i))
    rg = P.f('range_')
    g = AND(le(num(0), a), int_lt(leaf(a), leaf(z(2))))
    for v, i in ((x, 0), (y, 1)):
        g = AND(g, le(rg, v), int_lt(leaf(IN.t_add(v, rg)), leaf(z(i))))
    return g


def free_cell(ctx, P):
    from sweep import visits, stops, CELL
    from numlib import subst
    f = P.fn('searchAvailablePos')
    I, r, st = P.run(f, container_index=GRID)
    site = f.name
    s, xy, an, acc, low = [par(f, i) for i in range(1, 6)]
    angle = mk('fld', P.f('map_info_'), 'angle')
    groups = {}
    for e in I.events:
        if e.kind == 'index' and e.loops:
            ctx.ob('free-cell', all(t is P.f('cm_') for g, t in cases(e.obj)), at(e), 'occupancy taken from %s' % show(e.obj)[:80])
            groups.setdefault(e.loops[0].id, []).append(e)
    ctx.ob('free-cell', len(groups) == 2, site, '%d passes over the cells' % len(groups))
    if len(groups) != 2:
        return
    first = lift_eq(leaf(acc), -1)
    unlimited = lift_eq(leaf(low), 0)
    limit = [IN.ite(first, leaf(P.f('relocation_acceptable_cost_')), leaf(acc)), leaf(num(100))]
    best = []
    for k, gid in enumerate(sorted(groups)):
        es = groups[gid]
        ls = es[0].loops
        vs = []
        for e in es:
            for gk, t in cases(e.args[0]):
                hd = heading(t.args[2], angle) if t.op == 'vec' and isinstance(t.args[2], T) else None
                if hd is None:
                    ctx.ob('free-cell', False, at(e), 'cell %s' % show(t)[:200])
                    return
                vs += visits([leaf(t.args[0]), leaf(t.args[1]), leaf(hd)], AND(e.g, gk), e.loops)
        d = [minus(CELL[i], comp(s, i)) for i in range(3)]
        c2 = mk('cycu', CELL[2], angle)
        int_terms.add(c2)
        d2 = IN.t_add(sq(d[0]), sq(d[1]))
        moved = NOT(AND(*[lift_eq(leaf(x), 0) for x in d]))
        bounds = AND(*[AND(le(x, w), le(IN.t_neg(x), w)) for x, w in zip(d, (xy, xy, an))])
        Q = AND(bounds, moved, le(d2, sq(xy)), in_map(P, CELL[0], CELL[1], c2))
        for c, n in ((CELL[0], 'width'), (CELL[1], 'height')):
            Q = AND(Q, le(num(0), c), int_lt(leaf(c), leaf(mk('fld', P.f('map_info_'), n))))
        near = le(sq(low), d2)
        pre = ls[0].entry.g
        seen = OR(*[v.g for v in vs]) if vs else FALSE
        what = 'pass %d' % (k + 1)
        ctx.entail('free-cell', AND(pre, seen), Q, at(es[0]), what + ': a cell that must not be chosen is looked at')
        if k == 0:
            ctx.entail('free-cell', AND(pre, seen), near, at(es[0]), what + ': a cell that is too near is looked at')
            Q = AND(Q, near)
            ctx.entail('free-cell', AND(pre, Q), seen, at(es[0]), what + ': a cell is left out')
        else:
            ctx.entail('free-cell', AND(pre, Q, near), seen, at(es[0]), what + ': a cell is left out')
        for v in vs:
            for l, E in stops(v.loops, v.mp, AND(pre, Q)):
                ctx.ob('free-cell', False, '%s:%d' % (l.file, l.line), 'the search ends early: %s' % witness(E)[:200])
        b = choice(ctx, P, I, es, ls, limit[k], d, angle, what)
        if b is None:
            return
        best.append(b)
    a, b = best
    none = [lift_eq_term(x[0], FMAX) for x in best]
    found1 = NOT(none[0])
    again = AND(none[0], NOT(lift_eq_val(limit[0], 100)))
    found2 = AND(again, NOT(none[1]))
    left = loops_left(I)
    same_bool(ctx, 'free-cell', r, OR(found1, found2), site, 'found', left)
    ls2 = [l for l in I.loop_info if l.id == sorted(groups)[1]]
    for l in ls2:
        exactly(ctx, 'free-cell', l.entry.g, again, site, 'second pass', left)
    for i in range(3):
        got = I.freeze(I.read1(comp(s, i), st))
        same_val(ctx, 'free-cell', strip(got, i, angle), leaf(a[1][i]), site, 'component %d of the first pass' % i, AND(left, found1))
        same_val(ctx, 'free-cell', strip(got, i, angle), leaf(b[1][i]), site, 'component %d of the second pass' % i, AND(left, found2))
        same_val(ctx, 'free-cell', got, leaf(comp(s, i)), site, 'component %d when no cell is free' % i, AND(left, NOT(OR(found1, found2))))


def strip(v, i, angle):
    return lift1(lambda t: leaf(heading(t, angle) or t), v) if i == 2 else v


def lift_eq_term(t, u):
    return IN.eq_leaf(t, u)


def lift_eq_val(v, k):
    return tobool(cmpv('==', v, leaf(num(k)), True))


def choice(ctx, P, I, es, ls, limit, d, angle, what):
    """(term of the least cost, terms of the cell) after the pass; the cell of least cost is kept"""
    site = at(es[0])
    L = ls[-1]
    call = [e for e in I.events if e.kind == 'call' and e.name.endswith('::euclidCost') and e.loops and e.loops[0].id == ls[0].id]
    ctx.ob('nearest-free-cell', len(call) == 1 and call[0].loops[-1] is L, site, '%s: %d costs of a cell' % (what, len(call)))
    if len(call) != 1:
        return None
    kc = cases(es[0].args[0])
    ctx.ob('nearest-free-cell', len(kc) == 1, site, 'several cells')
    cell = kc[0][1]
    s = comp_root(cell, d)
    for g, t in cases(call[0].args[0]):
        want = [minus(cell.args[0], s[0]), minus(cell.args[1], s[1]), minus(heading(cell.args[2], angle), s[2])]
        ctx.ob('nearest-free-cell', t.op == 'vec' and all(x is y for x, y in zip(t.args, want)), at(call[0]), 'cost of the way %s' % show(t)[:200])
    ctx.ob('nearest-free-cell', all(t is mk('deref', P.f('model_')) for g, t in cases(call[0].obj)), at(call[0]), 'cost by %s' % show(call[0].obj)[:80])
    cost = None
    n = {}
    for loc in L.phis:
        if not isinstance(loc, T):
            continue
        try:
            v = I.freeze(I.read1(loc, L.next))
        except Unsupported:
            continue
        for g, t in cases(v):
            if t.op == 'call' and str(t.args[0]).endswith('::euclidCost'):
                n[loc] = (v, t)
    ctx.ob('nearest-free-cell', len(n) == 1, site, '%s: least cost kept in %d places' % (what, len(n)))
    if len(n) != 1:
        return None
    loc, (v, cost) = list(n.items())[0]
    ph = [mk('phi', l.id, loc) for l in ls]
    occ = mk('elem', P.f('cm_'), cell)
    free = tobool(cmpv('<', leaf(occ), limit, True))
    body = OR(*[e.g for e in es])
    better = AND(body, free, lt(leaf(cost), leaf(ph[-1])))
    same_val(ctx, 'nearest-free-cell', v, leaf(cost), site, what + ': least cost', AND(L.next.g, better))
    same_val(ctx, 'nearest-free-cell', v, leaf(ph[-1]), site, what + ': least cost', AND(L.next.g, NOT(better)))
    # the cell kept with it
    out = None
    for o in L.phis:
        while isinstance(o, T) and o.op in ('fld', 'elem') and isinstance(o.args[0], T):
            o = o.args[0]
        if not isinstance(o, T) or o is loc or o is THIS:
            continue
        try:
            x = I.freeze(I.read1(comp(o, 0), L.next))
        except Unsupported:
            continue
        if any(t is cell.args[0] and sat(AND(g, better)) for g, t in cases(x)):
            out = o
    ctx.ob('nearest-free-cell', out is not None, site, what + ': the cell is not kept with its cost')
    if out is None:
        return None
    for i in range(3):
        o = comp(out, i)
        x = I.freeze(I.read1(o, L.next))
        same_val(ctx, 'nearest-free-cell', strip(x, i, angle), leaf(heading(cell.args[i], angle) or cell.args[i]), site, '%s: component %d of the cell' % (what, i), AND(L.next.g, better))
        same_val(ctx, 'nearest-free-cell', x, I.freeze(I.read1(o, L.head)), site, '%s: component %d of the cell' % (what, i), AND(L.next.g, NOT(better)))
    # carried through the loops
    for l in [loc] + [comp(out, i) for i in range(3)]:
        for k, q in enumerate(ls):
            if k:
                same_val(ctx, 'nearest-free-cell', I.freeze(I.read1(l, q.entry)), I.freeze(I.read1(l, ls[k - 1].head)), site, what + ': kept cell when a row begins', q.entry.g)
            if k + 1 < len(ls):
                same_val(ctx, 'nearest-free-cell', I.freeze(I.read1(l, q.next)), I.freeze(I.read1(l, ls[k + 1].head)), site, what + ': kept cell when a row ends', q.next.g)
    same_val(ctx, 'nearest-free-cell', I.freeze(I.read1(loc, ls[0].entry)), leaf(FMAX), site, what + ': least cost at the beginning', ls[0].entry.g)
    return ph[0], [cases(I.freeze(I.read1(comp(out, i), ls[0].head)))[0][1] for i in range(3)]


def comp_root(cell, d):
    from sweep import CELL
    return [minus(CELL[i], d[i]) for i in range(3)]


def relocating(ctx, P):
    f = P.fn('relocateDiscretePoseIfNeeded')
    I, r, st = P.run(f, quiet=[('searchAvailablePos', (), (1,))], container_index=GRID)
    site = f.name
    s, lin, ang, rough = [par(f, i) for i in range(4)]
    rough = tobool(leaf(rough))
    sa = by(I, 'searchAvailablePos')
    calls_g = g_of(sa)
    once(ctx, 'relocation', sa, site, 'search of a free cell')
    for what, g, m, a in (('rough', rough, P.f('cm_rough_'), num(0)), ('fine', NOT(rough), P.f('cm_'), comp(s, 2))):
        x, y = comp(s, 0), comp(s, 1)
        z = lambda i: mk('elem', mk('fld', mk('fld', m, 'size_'), 'e_'), num(i))
        rg = P.f('range_')
        inm = AND(le(num(0), a), int_lt(leaf(a), leaf(z(2))))
        for v, i in ((x, 0), (y, 1)):
            inm = AND(inm, le(rg, v), int_lt(leaf(IN.t_add(v, rg)), leaf(z(i))))
        occ = mk('elem', m, mk('vec', x, y, a))
        full = lift_eq(leaf(occ), 100)
        need = AND(inm, full)
        exactly(ctx, 'relocation', AND(g, calls_g), AND(g, need), site, 'search of a free cell (%s)' % what)
        found = FALSE
        for e in sa:
            ok = tobool(e.val)
            found = OR(found, AND(e.g, ok))
            for i, t in ((2, lin), (3, ang)):
                same_val(ctx, 'relocation', e.args[i], leaf(t), at(e), 'range %d' % i, AND(e.g, g))
            if sat(AND(e.g, g)):
                for i, t in enumerate((x, y, a)):
                    same_val(ctx, 'relocation', I.freeze(I.getelem(I.getfld(e.args[1], 'e_'), leaf(num(i)))), leaf(t), at(e), 'component %d of the cell' % i, AND(e.g, g))
        st_names = {n: enum_value(ctx, 'DiscretePoseStatus', n) for n in ('OK', 'RELOCATED', 'IN_ROCK', 'OUT_OF_MAP')}
        for n, c in (('OUT_OF_MAP', NOT(inm)), ('OK', AND(inm, NOT(full))), ('RELOCATED', AND(need, found)), ('IN_ROCK', AND(need, NOT(found)))):
            same_val(ctx, 'relocation', r, leaf(num(st_names[n])), site, 'outcome (%s)' % what, AND(g, c))
        for i, t in enumerate((x, y, a)):
            same_val(ctx, 'relocation', I.freeze(I.read1(comp(s, i), st)), leaf(t), site, 'component %d of the cell that is not occupied (%s)' % (i, what), AND(g, NOT(need)))


def enum_value(ctx, enum, name):
    ORDER = ('OK', 'RELOCATED', 'IN_ROCK', 'OUT_OF_MAP')
    return ORDER.index(name)


def starts(ctx, P):
    f = P.fn('buildStartPoses')
    sf = [mk('sf', i) for i in range(3)]

    def cells(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        I.emit('call', 'cells', st, e['l'], args=vs, decl=d)
        for i in (1, 2, 3):
            I.write(I.lval(e['a'][i], st), leaf(sf[i - 1]), st)
        return None

    def process(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        k = I.fresh()
        I.emit('call', 'process', st, e['l'], args=vs, decl=d, val=leaf(mk('call', 'process', k)))
        I.write(I.lval(e['a'][4], st), leaf(mk('after', k, 'process', 4)), st)
        return I.typed(leaf(mk('call', 'process', k)), I.et(e))

    def near(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        v = liftn(lambda xs: mk('call', 'isPathFinishing', *xs), vs)
        I.emit('call', 'near', st, e['l'], args=vs, decl=d, val=v)
        return v
    h = plan_hooks(P)
    h.update({NS + 'grid_metric_converter::metric2Grid': cells, NS + 'StartPosePredictor::process': process, C + '::isPathFinishing': near})
    I, r, st = P.run(f, values=['metric2Grid'], quiet=[('searchAvailablePos', (), (1,))], hooks=h, container_index=GRID)
    site = f.name
    s_m, e_m, out = par(f, 0), par(f, 1), par(f, 2)
    mi = P.f('map_info_')
    # the cell of the robot
    cs = [e for e in I.events if e.kind == 'call' and e.name == 'cells']
    ctx.ob('start-cell', len(cs) == 1 and cs[0].g is TRUE, site, '%d conversions of the start' % len(cs))
    if len(cs) != 1:
        return
    p = reduce(s_m, 'position')
    for i, w in ((0, mi), (4, mk('fld', p, 'x')), (5, mk('fld', p, 'y')), (6, mk('call', 'tf2::getYaw', reduce(s_m, 'orientation')))):
        same_val(ctx, 'start-cell', cs[0].args[i], leaf(w), at(cs[0]), 'argument %d' % i)
    fl = lambda t: ints_of(IN.fn_leaf('floor', t))
    angle = mk('fld', mi, 'angle')
    x, y = fl(sf[0]), fl(sf[1])
    a = mk('cycu', ints_of(IN.fn_leaf('round', sf[2])), angle)
    int_terms.add(a)
    inm = in_map(P, x, y, a)
    fg = [e for e in I.events if e.kind == 'call' and e.name == 'forget']
    ctx.entail('start-cell', TRUE, g_of(fg), site, 'the preserved path is kept')
    pr = [e for e in I.events if e.kind == 'call' and e.name == 'process']
    for e in pr:
        ctx.ob('keep-previous-path', all(q.seq < e.seq for q in fg), at(e), 'the preserved path is forgotten after the prediction')
    clears = [e for e in I.events if e.kind == 'clear' and any(t is out for g, t in cases(e.obj))]
    pushes = [e for e in I.events if e.kind == 'push' and any(t is out for g, t in cases(e.obj))]
    ctx.ob('start-cell', bool(clears) and clears[0].g is TRUE and all(clears[0].seq < e.seq for e in pushes), site, 'former start cells are not dropped')
    keep = AND(P.b0('keep_a_part_of_previous_path_'), int_lt(leaf(num(0)), leaf(mk('fld', reduce(P.f('previous_path_'), 'poses'), '#size'))))
    exactly(ctx, 'keep-previous-path', pr, AND(inm, keep), site, 'prediction of the start')
    once(ctx, 'keep-previous-path', pr, site, 'prediction of the start')
    if len(pr) != 1:
        return
    for i, w in ((0, s_m), (1, P.f('cm_')), (2, mi), (3, P.f('previous_path_'))):
        same_val(ctx, 'keep-previous-path', pr[0].args[i], leaf(w), at(pr[0]), 'argument %d' % i, pr[0].g)
    predicted = tobool(pr[0].val)
    kp = cases(pr[0].val)[0][1].args[1]
    after = mk('after', kp, 'process', 4)
    rows = [(AND(inm, keep, predicted), tuple(comp(after, i) for i in range(3)), leaf(num(0)), 'keep-previous-path')]
    # cells around the robot
    around = AND(inm, NOT(keep), P.b0('antialias_start_'))
    half = Fraction(1, 2)
    ec = leaf(comp(P.f('ec_'), 0))
    wc = mk('fld', P.f('cc_'), 'weight_costmap_')
    side = [lt(leaf(minus(sf[i], (x, y)[i])), leaf(num(half))) for i in (0, 1)]
    any_ = FALSE
    for sx in (0, -1, 1):
        for sy in (0, -1, 1):
            g = AND(around, TRUE if sx == 0 else (side[0] if sx < 0 else NOT(side[0])), TRUE if sy == 0 else (side[1] if sy < 0 else NOT(side[1])))
            cx, cy = IN.t_add(x, num(sx)), IN.t_add(y, num(sy))
            dx, dy = minus(IN.t_add(cx, num(half)), sf[0]), minus(IN.t_add(cy, num(half)), sf[1])
            occ = mk('elem', P.f('cm_'), mk('vec', cx, cy, a))
            g = AND(g, in_map(P, cx, cy, a), le(IN.t_add(sq(dx), sq(dy)), num(1)), le(occ, num(99)))
            any_ = OR(any_, g)
            ex = IN.t_mul(dx, cases(ec)[0][1]), IN.t_mul(dy, cases(ec)[0][1])
            c = lift1(lambda u: leaf(IN.t_add(u, IN.t_fdiv(IN.t_mul(occ, wc), num(100)))), tonode(IN.fn_leaf('sqrt', IN.t_add(sq(ex[0]), sq(ex[1])))))
            rows.append((g, (cx, cy, a), c, 'start-around'))
    alone = AND(inm, NOT(keep), NOT(P.b0('antialias_start_')), int_lt(leaf(mk('elem', P.f('cm_'), mk('vec', x, y, a))), leaf(num(100))))
    rows.append((alone, (x, y, a), leaf(num(0)), 'start-cell'))
    # none of them
    none = AND(inm, NOT(keep), NOT(any_), NOT(alone))
    sa = by(I, 'searchAvailablePos')
    exactly(ctx, 'start-relocated', sa, none, site, 'search of a free cell')
    once(ctx, 'start-relocated', sa, site, 'search of a free cell')
    if len(sa) != 1:
        return
    for i, w in ((2, P.f('tolerance_range_')), (3, P.f('tolerance_angle_')), (4, num(-1)), (5, num(0))):
        same_val(ctx, 'start-relocated', sa[0].args[i], leaf(w), at(sa[0]), 'argument %d' % i, sa[0].g)
    for i, w in enumerate((x, y, a)):
        same_val(ctx, 'start-relocated', I.freeze(I.getelem(I.getfld(sa[0].args[1], 'e_'), leaf(num(i)))), leaf(w), at(sa[0]), 'component %d of the cell' % i, sa[0].g)
    moved = tobool(sa[0].val)
    km = cases(sa[0].val)[0][1].args[1]
    rows.append((AND(none, moved), tuple(comp(mk('after', km, 'searchAvailablePos', 1), i) for i in range(3)), leaf(num(0)), 'start-relocated'))
    tell(ctx, I, pushes, rows, site)
    # outcome
    end = mk('call', 'metric2Grid', e_m)
    fail = OR(NOT(inm), AND(inm, keep, NOT(predicted)), AND(none, NOT(moved)))
    left = loops_left(I)
    same_val(ctx, 'outcome', r, leaf(num(OCCUPIED)), site, 'outcome without a start cell', fail)
    ns = [e for e in I.events if e.kind == 'call' and e.name == 'near']
    for e in ns:
        same_val(ctx, 'outcome', lift1(lambda t: leaf(root(t)), e.args[1]), leaf(end), at(e), 'nearness to', e.g)
    one = [e for e in ns if not e.loops]
    exactly(ctx, 'outcome', one, AND(inm, keep, predicted), site, 'nearness of the robot')
    for e in one:
        for i, w in enumerate((x, y, a)):
            same_val(ctx, 'outcome', I.freeze(I.getelem(I.getfld(e.args[0], 'e_'), leaf(num(i)))), leaf(w), at(e), 'component %d of the robot' % i, e.g)
        same_val(ctx, 'outcome', r, IN.ite(tobool(e.val), leaf(num(FINISH)), leaf(num(NORMAL))), site, 'outcome with a kept path', e.g)
    many = [e for e in ns if e.loops]
    ctx.ob('outcome', len(many) == 1 and len(many[0].loops) == 1, site, 'the start cells are compared with the goal in %d places' % len(many))
    if len(many) != 1 or len(many[0].loops) != 1:
        return
    e = many[0]
    L = e.loops[0]
    cells_ = I.freeze(I.read1(out, L.entry))
    n = I.freeze(I.getfld(cells_, '#size'))
    for i in range(3):
        el = I.getelem(I.getfld(I.getfld(I.getelem(cells_, leaf(L.ind)), 'v_'), 'e_'), leaf(num(i)))
        same_val(ctx, 'outcome', I.freeze(I.getelem(I.getfld(e.args[0], 'e_'), leaf(num(i)))), I.freeze(el), at(e), 'component %d of the start cell' % i, AND(L.body_g, e.g))
    full = tobool(cmpv('<', leaf(L.ind), n, True))
    ctx.entail('outcome', AND(L.entry.g, full), L.cond, at(e), 'start cells are left out')
    ctx.entail('outcome', L.body_g, e.g, at(e), 'a start cell is skipped')
    ctx.entail('outcome', AND(L.next.g, tobool(e.val)), FALSE, at(e), 'a start cell near the goal is not noticed')
    ctx.entail('outcome', AND(L.body_g, NOT(tobool(e.val))), L.next.g, at(e), 'not all start cells are compared with the goal')
    ok = AND(NOT(fail), NOT(AND(inm, keep)))
    ctx.entail('outcome', AND(inm, NOT(keep), NOT(fail)), L.entry.g, site, 'start cells are not compared with the goal')
    stays = tobool(cmpv('<=', n, leaf(L.ind), True))
    same_val(ctx, 'outcome', r, leaf(num(NORMAL)), site, 'outcome when no start cell is near the goal', AND(ok, left, stays))
    same_val(ctx, 'outcome', r, leaf(num(FINISH)), site, 'outcome when a start cell is near the goal', AND(ok, left, NOT(stays)))


def ints_of(t):
    t = t if isinstance(t, T) else cases(t)[0][1]
    int_terms.add(t)
    return t


def tonode(t):
    return t if isinstance(t, N) else leaf(t)


def tell(ctx, I, pushes, rows, site):
    """every start cell that is wanted is added with its cost, and no other"""
    from numlib import agree
    got = {}
    for e in pushes:
        v = e.args[0]
        xs = [I.freeze(I.getelem(I.getfld(I.getfld(v, 'v_'), 'e_'), leaf(num(i)))) for i in range(3)]
        c = I.freeze(I.getfld(v, 'c_'))
        for g0, t0 in cases(xs[0]):
            for g1, t1 in cases(xs[1]):
                for g2, t2 in cases(xs[2]):
                    g = AND(e.g, g0, g1, g2)
                    if sat(g):
                        got.setdefault((t0, t1, t2), []).append((g, c, e))
    for g, key, cost, rule in rows:
        es = got.get(key, [])
        ctx.entail(rule, g, OR(*[x[0] for x in es]) if es else FALSE, site, 'a start cell is left out: %s' % ', '.join(show(k)[:60] for k in key))
        for h, c, e in es:
            x = AND(g, h)
            if sat(x):
                agree(ctx, rule, at(e), c, cost, x, 'cost of a start cell')
        for i in range(len(es)):
            for j in range(i + 1, len(es)):
                ctx.entail(rule, AND(es[i][0], es[j][0]), FALSE, at(es[j][2]), 'the same start cell twice')
    for key, es in got.items():
        want = [r[0] for r in rows if r[1] == key]
        for h, c, e in es:
            ctx.entail('start-cell', h, OR(*want) if want else FALSE, at(e), 'a cell that is no start cell: %s' % ', '.join(show(k)[:60] for k in key))
