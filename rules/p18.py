"""Plan requests: which are answered, from which cells, and how poses become cells and cells become poses."""
from fractions import Fraction
from planlib import *
from models import GRID
from core import exists_other
from p14 import num, lift_eq, reduce
from p15 import plan_hooks, enum_value, comp
EXPLANATION = ('The service is summarised over an arbitrary node, request, relocation, search and conversion: its result, the cells searched and each pose of the answer are compared with '
               'the specification. The conversions are compared as exact linear expressions, the one of a path for an arbitrary cell.')
ASSUMPTIONS = ['callbacks run one at a time', 'real arithmetic', 'the resolutions of the map are positive']
NS = 'planner_cspace::planner_3d::'


def one_leaf(v):
    """the only possible value"""
    ts = [t for c, t in cases(v) if sat(c)]
    return ts[0] if len(ts) == 1 else None


def check(ctx):
    P = Plan(ctx)
    ctx.part(service, P)
    ctx.part(to_cell, P)
    ctx.part(to_pose, P)
    ctx.part(path_poses, P)


def cell_of(I, v):
    arr = I.getfld(v, 'e_')
    return [I.freeze(I.getelem(arr, leaf(num(i)))) for i in range(3)]


def service(ctx, P):
    f = P.fn('cbMakePlan')
    I, r, st = P.run(f, quiet=[('relocateDiscretePoseIfNeeded', (), (0,))], values=['metric2Grid', 'grid2MetricPose'], hooks=plan_hooks(P), container_index=GRID)
    site = f.name
    req, res = par(f, 0), par(f, 1)
    mf = mk('fld', P.f('map_header_'), 'frame_id')
    valid = P.b0('has_map_')
    for n in ('start', 'goal'):
        valid = AND(valid, IN.eq_leaf(reduce(req, n, 'header', 'frame_id'), mf))
    rel_ = by(I, 'relocateDiscretePoseIfNeeded')
    where = {}
    for e in rel_:
        ctx.ob('relocated', not e.loops, at(e), 'relocates repeatedly')
        ctx.entail('relocated', e.g, valid, at(e), 'a request that is not valid is used')
        for g, t in cases(e.args[0]):
            if sat(AND(e.g, g)):
                n = [n for n in ('start', 'goal') if t is mk('call', 'metric2Grid', reduce(req, n, 'pose'))]
                if ctx.ob('relocated', len(n) == 1, at(e), 'relocates %s' % show(t)[:200]):
                    where.setdefault(n[0], []).append((AND(e.g, g), e))
        tol = mk('fld', req, 'tolerance')
        lin = reduce(P.f('map_info_'), 'linear_resolution')
        for g, t in cases(e.args[1]):
            if sat(AND(e.g, g)):
                ok = t.op == 'fn' and t.args[0] == 'round' and IN.t_mul(t.args[1], lin) is tol
                ctx.ob('relocated', ok, at(e), 'distance of relocation is %s' % show(t)[:200])
        same_val(ctx, 'relocated', e.args[2], leaf(P.f('tolerance_angle_')), at(e), 'angle of relocation', e.g)
        if len(e.args) > 3:
            same_bool(ctx, 'relocated', e.args[3], TRUE, at(e), 'search on the planar map', e.g)
        else:
            ctx.ob('relocated', False, at(e), 'relocated on the map with headings')
    if not ctx.ob('relocated', set(where) == {'start', 'goal'}, site, 'start or goal is not relocated: %s' % sorted(where)):
        return
    bad = FALSE
    ev = {}
    for n, es in where.items():
        ctx.ob('relocated', len(es) == 1, site, '%s is relocated %d times' % (n, len(es)))
        e = es[0][1]
        ev[n] = e
        for x in ('OUT_OF_MAP', 'IN_ROCK'):
            bad = OR(bad, AND(e.g, lift_eq(e.val, enum_value(ctx, 'DiscretePoseStatus', x))))
    go = AND(valid, NOT(bad))
    ctx.entail('relocated', go, AND(ev['start'].g, ev['goal'].g), site, 'a valid request is answered without looking at its cells')
    # search
    sr = [e for e in I.events if e.kind == 'call' and e.name == 'search']
    exactly(ctx, 'search', sr, go, site, 'search')
    once(ctx, 'search', sr, site, 'search')
    if not sr:
        return
    ok = FALSE
    at_ = {n: mk('after', cases(e.val)[0][1].args[1], 'relocateDiscretePoseIfNeeded', 0) for n, e in ev.items()}
    for S in sr:
        ok = OR(ok, AND(S.g, tobool(S.val)))
        ctx.ob('search', all(t is P.f('as_') for g, t in cases(S.obj)), at(S), 'search object %s' % show(S.obj)[:100])
        sv = IN.lift1(lambda t: leaf(t.args[1]) if t.op == 'ctor' and len(t.args) == 2 and str(t.args[0]).endswith('vector') else leaf(t), I.freeze(S.args[0]))
        same_val(ctx, 'search', msgf(I, sv, '#size'), leaf(num(1)), at(S), 'number of start cells', S.g)
        el = I.freeze(I.getelem(sv, leaf(num(0))))
        vv = I.freeze(I.getfld(el, 'v_'))
        got = [t for g, t in cases(vv) if sat(AND(g, S.g))] if isinstance(vv, N) else []
        ctx.ob('search', bool(got) and all(made_of(t, at_['start']) for t in got), at(S), 'searches from %s' % ', '.join(show(t)[:120] for t in got))
        goal = [t for g, t in cases(S.args[1]) if sat(AND(g, S.g))]
        ctx.ob('search', bool(goal) and all(t is at_['goal'] for t in goal), at(S), 'searches for %s' % ', '.join(show(t)[:120] for t in goal))
        ctx.entail('search', S.g, tobool(cmpv('<=', msgf(I, S.args[2], '#size'), leaf(num(0)), True)), at(S), 'the path is not empty before the search')
        for g, t in cases(S.args[3]):
            if sat(AND(g, S.g)):
                ctx.ob('search', any(isinstance(x, T) and x.op == 'new' and 'GridAstarModel2D' in str(x.args[0]) for x in subterms(t)), at(S), 'search with the model %s' % show(t)[:100])
        same_val(ctx, 'search', S.args[5], leaf(num(0)), at(S), 'least cost of a partial path', S.g)
        for g, t in cases(S.args[6]):
            ctx.ob('search', not sat(AND(g, S.g)) or IN.t_mul(t, P.f('freq_min_')) is num(1), at(S), 'time limit %s' % show(t)[:200])
        same_bool(ctx, 'search', S.args[7], P.b0('find_best_'), at(S), 'take the best found', S.g)
    for m in [e for e in I.events if e.kind == 'mark' and e.name == 'progressed']:
        ctx.entail('search', m.g, tobool(m.val), at(m), 'the search is stopped early')
    # result
    left = g_left(I)
    same_bool(ctx, 'result', r, ok, site, 'result', left)
    ap = [e for e in I.events if e.kind == 'call' and e.name == 'append']
    once(ctx, 'path', ap, site, 'conversion of the path')
    ctx.entail('path', ok, g_of(ap), site, 'the path is not converted')
    for e in ap:
        ctx.entail('path', e.g, ok, at(e), 'the path of a failed search is converted')
        same_val(ctx, 'path', e.args[0], leaf(P.f('map_info_')), at(e), 'map', e.g)
        for g, t in cases(e.args[1]):
            if sat(AND(g, e.g)):
                a = t.args[-1] if t.op == 'call' and t.args[0] == 'interpolate' else None
                ctx.ob('path', isinstance(a, T) and a.op == 'after' and a.args[1] == 'search', at(e), 'cells %s' % show(t)[:200])
        ctx.entail('path', e.g, tobool(cmpv('<=', msgf(I, e.args[2], 'poses', '#size'), leaf(num(0)), True)), at(e), 'poses before the path')
        h = I.freeze(I.getfld(I.getfld(e.args[2], 'header'), 'frame_id'))
        same_val(ctx, 'answer', h, leaf(mf), at(e), 'frame of the poses', e.g)
    same_val(ctx, 'answer', I.freeze(I.read1(reduce(res, 'plan', 'header', 'frame_id'), st)), leaf(mf), site, 'frame of the plan', AND(ok, left))
    answer(ctx, P, I, st, res, ok, ap, left, site)
    for e in I.events:
        if e.kind == 'store' and e.loc is not None and sat(AND(e.g, NOT(valid))):
            for g, t in cases(e.loc):
                if any(x is mk('this') for x in subterms(t)):
                    ctx.ob('node-untouched', not sat(AND(g, e.g, NOT(valid))), at(e), 'a refused request changes %s' % show(t)[:100])
    for x in ('has_goal_', 'has_start_', 'has_map_'):
        same_bool(ctx, 'node-untouched', I.freeze(I.read1(P.f(x), st)), P.b0(x), site, x)
    for x in ('goal_', 'goal_raw_', 'goal_original_', 'start_'):
        same_val(ctx, 'node-untouched', I.freeze(I.read1(reduce(P.f(x), 'pose'), st)), leaf(reduce(P.f(x), 'pose')), site, x)
    same_val(ctx, 'node-untouched', I.freeze(I.read1(reduce(P.f('status_'), 'status'), st)), leaf(reduce(P.f('status_'), 'status')), site, 'status')


def made_of(t, cell):
    """the vector t is the vector cell"""
    if t is cell:
        return True
    return t.op == 'fld' and t.args[1] == 'v_' and t.args[0] is cell or (t.op == 'vec' and all(x is comp(cell, i) for i, x in enumerate(t.args)))


def g_left(I):
    g = TRUE
    for L in I.loop_info:
        if L.exits:
            g = AND(g, OR(NOT(L.entry.g), *[x.g for x in L.exits]))
    return g


def answer(ctx, P, I, st, res, ok, ap, left, site):
    """the poses of the answer are the converted ones, each at its place"""
    poses = reduce(res, 'plan', 'poses')
    ks = [mk('after', cases(e.val)[0][1].args[1], 'append', 2) for e in ap]
    src = [mk('fld', k, 'poses') for k in ks]
    size = I.freeze(I.typed(I.getfld(I.read1(poses, st), '#size'), INT32))
    whole = [e for e in I.events if e.kind == 'store' and e.loc is not None and any(t is poses or t is reduce(res, 'plan') for g, t in cases(e.loc))]
    kept = FALSE
    for e in whole:
        v = e.val if any(t is poses for g, t in cases(e.loc)) else I.getfld(e.val, 'poses')
        v = I.freeze(v)
        for g, t in cases(v):
            if t in src:
                kept = OR(kept, AND(e.g, g))
            elif t.op == 'ctor' and len(t.args) == 1:
                raise AnchorMissing('poses of the answer: a container of unknown content')
            else:
                ctx.ob('answer', not sat(AND(e.g, g)), at(e), 'the poses become %s' % show(t)[:150])
    stores = []
    for e in I.events:
        if e.kind == 'store' and e.loc is not None:
            for g, t in cases(e.loc):
                if t.op == 'elem' and t.args[0] is poses:
                    stores.append((AND(e.g, g), t.args[1], e))
        elif e.kind == 'push' and e.obj is not None and any(t is poses for g, t in cases(e.obj)):
            stores.append((e.g, None, e))
    each = FALSE
    for g, i, e in stores:
        lp = [l for l in e.loops]
        if not ctx.ob('answer', len(lp) == 1, at(e), 'poses are set in %d loops' % len(lp)):
            continue
        L = lp[0]
        x = L.ind if i is None else i
        back = [IN.t_add(IN.t_add(mk('fld', s, '#size'), num(-1)), IN.t_neg(L.ind)) for s in src]
        ctx.ob('answer', x is L.ind or x in back, at(e), 'the place of a pose is %s' % show(x)[:100])
        v = e.val if e.kind == 'store' else e.args[0]
        for h, t in cases(I.freeze(v)):
            if sat(AND(g, h)):
                ctx.ob('answer', t.op == 'elem' and t.args[0] in src and t.args[1] is x, at(e), 'a pose becomes %s' % show(t)[:150])
        for s in src:
            n = mk('fld', s, '#size')
            have = AND(L.entry.g, cmp_terms('<', L.ind, n, True), cmp_terms('>=', L.ind, num(0), True))
            ctx.entail('answer', have, g, at(e), 'poses are left out')
            ctx.entail('answer', AND(L.body_g, cmp_terms('<', L.ind, n, True)), L.next.g, at(e), 'poses are left out')
            ctx.entail('answer', AND(g, cmp_terms('<=', L.ind, n, True)), cmp_terms('<', L.ind, n, True), at(e), 'poses beyond the path are set')
        each = OR(each, L.entry.g)
        if i is not None:
            for s in src:
                rs = [q for q in I.events if q.kind == 'resize' and q.seq < e.seq and any(t is poses for h, t in cases(q.obj))]
                okk = bool(rs) and all(t is mk('fld', s, '#size') for h, t in cases(rs[-1].args[0]))
                ctx.ob('answer', okk, at(e), 'the number of poses is not that of the path')
                ctx.entail('answer', L.entry.g, g_of(rs), at(e), 'the number of poses is not that of the path')
        else:
            cl = [q for q in I.events if q.kind in ('clear', 'resize') and q.seq < e.seq and any(t is poses for h, t in cases(q.obj))]
            ctx.entail('answer', L.entry.g, g_of(cl), at(e), 'poses are added to those before')
    def ranges(vs, e):
        """the sources of which the two iterators cover all"""
        b, n = [one_leaf(x) for x in vs]
        if any(x is None or x.op != 'it' for x in (b, n)) or b.args[0] is not n.args[0] or b.args[1] is not ZERO:
            return []
        return [s for s in src if one_leaf(I.freeze(I.read1(b.args[0], then(I, e)))) is s and n.args[1] is mk('fld', s, '#size')]

    def at_start(x):
        x = one_leaf(x)
        while x is not None and x.op == 'ctor' and len(x.args) == 2:
            x = x.args[1]
        return x is not None and x.op == 'it' and x.args[0] is poses and x.args[1] is ZERO

    def sized(e):
        return [q for q in I.events if q.kind in ('resize', 'clear') and q.seq < e.seq and any(t is poses for h, t in cases(q.obj))]
    for e in I.events:
        own_ = e.obj is not None and any(t is poses for h, t in cases(e.obj)) if e.kind in ('assign', 'insert') else False
        if e.kind == 'call' and e.name in ('std::copy', 'std::move') and len(e.args) == 3 and at_start(e.args[2]):
            v = ranges(e.args[:2], e)
            rs = sized(e)
            okk = len(v) == 1 and bool(rs) and rs[-1].kind == 'resize' and all(t is mk('fld', v[0], '#size') for h, t in cases(rs[-1].args[0]))
        elif own_ and e.kind == 'assign' and len(e.args) == 2:
            okk = len(ranges(e.args, e)) == 1
        elif own_ and e.kind == 'insert' and len(e.args) == 3:
            rs = sized(e)
            okk = len(ranges(e.args[1:], e)) == 1 and at_start(e.args[0]) and bool(rs) and rs[-1].kind == 'clear'
        else:
            continue
        if ctx.ob('answer', okk and not e.loops, at(e), 'poses are copied from elsewhere or in part'):
            kept = OR(kept, e.g)
    for e in whole:
        later = [x for g, i, x in stores if x.seq > e.seq]
        ctx.ob('answer', not later or not sat(AND(e.g, kept, g_of(later))), at(e), 'poses are changed after they were copied')
    ctx.entail('answer', AND(ok, left), OR(kept, each), site, 'the path is not answered')


def linear(P, o):
    m = o
    pos = lambda c: reduce(m, 'origin', 'position', c)
    return pos, reduce(m, 'linear_resolution'), reduce(m, 'angular_resolution')


def yaw_of(t):
    """orientation whose yaw t is, or None"""
    return t.args[1] if t.op == 'call' and str(t.args[0]).endswith('getYaw') else None


def to_cell(ctx, P):
    f = P.fn('metric2Grid')
    I, r, st = P.run(f)
    pose = par(f, 0)
    pos, lin, ang = linear(P, P.f('map_info_'))
    site = f.name
    n = reduce(P.f('map_info_'), 'angle')
    for i, v in enumerate(cell_of(I, r)):
        for g, t in cases(v):
            if not sat(g):
                continue
            if i < 2:
                c = 'xy'[i]
                p = reduce(pose, 'position', c)
                want = IN.t_add(p, IN.t_neg(pos(c)))
                ok = t.op == 'fn' and t.args[0] == 'floor' and IN.t_mul(t.args[1], lin) is want
                ctx.ob('cell-of-a-pose', ok, site, 'component %d of the cell is %s' % (i, show(t)[:200]))
            else:
                a = t.args[0] if t.op == 'cycu' and t.args[1] is n else None
                ok = isinstance(a, T) and a.op == 'fn' and a.args[0] == 'round'
                if ok:
                    y = IN.t_mul(a.args[1], ang)
                    ok = yaw_of(y) is reduce(pose, 'orientation')
                ctx.ob('cell-of-a-pose', ok, site, 'heading of the cell is %s' % show(t)[:200])


def centre(pos, lin, c, x):
    """position of the middle of a cell"""
    return IN.t_add(IN.t_mul(lin, IN.t_add(x, mk('num', Fraction(1, 2)))), pos(c))


def to_pose(ctx, P):
    pos, lin, ang = linear(P, P.f('map_info_'))
    for name in ('grid2MetricPose', 'grid2MetricPoint'):
        f = P.fn(name)
        I, r, st = P.run(f)
        site = f.name
        cell = par(f, 0)
        b = I.getfld(r, 'position') if name == 'grid2MetricPose' else r
        for i, c in ((0, 'x'), (1, 'y')):
            w = centre(pos, lin, c, comp(cell, i))
            for g, t in cases(I.freeze(I.getfld(b, c))):
                ctx.ob('middle-of-a-cell', not sat(g) or t is w, site, '%s is %s' % (c, show(t)[:200]))
        if name == 'grid2MetricPose':
            facing(ctx, I, I.getfld(r, 'orientation'), IN.t_mul(ang, comp(cell, 2)), site, TRUE)


def facing(ctx, I, q, yaw, site, pre):
    for g, t in cases(I.freeze(q)):
        if sat(AND(g, pre)):
            ctx.ob('middle-of-a-cell', yaw_built(t) is yaw, site, 'orientation is %s' % show(t)[:250])


def yaw_built(t):
    """yaw of an orientation made around the vertical axis"""
    while t.op == 'call' and str(t.args[0]).endswith('toMsg') and len(t.args) == 2:
        t = t.args[1]
    if t.op == 'ctor' and str(t.args[0]).endswith('Quaternion') and len(t.args) == 3:
        v = t.args[1]
        if v.op == 'ctor' and str(v.args[0]).endswith('Vector3') and list(v.args[1:]) == [num(0), num(0), num(1)]:
            return t.args[2]
    return None


def path_poses(ctx, P):
    fs = [u for u in ctx.p.funcs.values() if u.name.endswith('appendGridPath2MetricPath')]
    ctx.need('conversions of a path', len(fs))
    for f in fs:
        I, r, st = P.run(f)
        m, src, path = [par(f, i) for i in range(3)]
        pos, lin, ang = linear(P, m)
        out = mk('fld', path, 'poses')
        ps = [e for e in I.events if e.kind == 'push' and e.obj is not None and any(t is out for g, t in cases(e.obj))]
        site = f.name
        if not ctx.ob('pose-of-each-cell', len(ps) == 1 and len(ps[0].loops) == 1, site, '%d poses are added for a cell' % len(ps)):
            continue
        e = ps[0]
        L = e.loops[0]
        n = mk('fld', src, '#size')
        have = AND(cmp_terms('<', L.ind, n, True), cmp_terms('>=', L.ind, num(0), True))
        ctx.entail('pose-of-each-cell', AND(L.entry.g, have), e.g, at(e), 'a cell gets no pose')
        ctx.entail('pose-of-each-cell', L.body_g, exists_other(L.next.g, [L.ind]), at(e), 'cells are left out')
        ctx.entail('pose-of-each-cell', AND(e.g, cmp_terms('<=', L.ind, n, True)), cmp_terms('<', L.ind, n, True), at(e), 'a pose without a cell')
        cell = mk('elem', src, L.ind)
        v = e.args[0]
        for i, c in ((0, 'x'), (1, 'y')):
            w = centre(pos, lin, c, comp(cell, i))
            for g, t in cases(msgf(I, v, 'pose', 'position', c)):
                ctx.ob('middle-of-a-cell', not sat(AND(g, e.g)) or t is w, at(e), '%s is %s' % (c, show(t)[:200]))
        for g, t in cases(msgf(I, v, 'pose', 'position', 'z')):
            ctx.ob('middle-of-a-cell', not sat(AND(g, e.g)) or t is num(0), at(e), 'z is %s' % show(t)[:200])
        facing(ctx, I, I.getfld(I.getfld(v, 'pose'), 'orientation'), IN.t_mul(ang, comp(cell, 2)), at(e), e.g)
        for x in ('frame_id', 'stamp'):
            for g, t in cases(I.freeze(I.getfld(I.getfld(v, 'header'), x))):
                ctx.ob('pose-of-each-cell', not sat(AND(g, e.g)) or t is reduce(path, 'header', x), at(e), '%s is %s' % (x, show(t)[:100]))
        oth = [q for q in I.events if q is not e and q.kind in ('clear', 'resize', 'erase', 'pop', 'insert') and q.obj is not None and any(t is out for g, t in cases(q.obj))]
        ctx.ob('pose-of-each-cell', not oth, site, 'poses of the path are changed otherwise')
