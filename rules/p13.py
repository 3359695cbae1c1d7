"""Costmaps of the planner: the whole map, updates of a region, and the maps kept beside them."""
from planlib import *
from models import GRID
from p14 import num, lt, int_lt, iff, reduce
from c03 import closed
import sweep
from sweep import CELL, visits, stops, stores
EXPLANATION = ('The handlers of the whole map and of an update are summarised over arbitrary messages and states; the stores into each map are re-expressed per cell, '
               'and each cell is compared with the value it must get from the message; the preparation of the distance map, the remembered costs and the publishers are steps with arbitrary outcome.')
ASSUMPTIONS = ['callbacks run one at a time', 'the data of a message has as many cells as its size tells', 'sizes and offsets do not overflow', 'an update has its first heading at a heading of the map']
GRIDS = ('cm_', 'cm_hyst_', 'cm_rough_', 'cm_updates_')


def check(ctx):
    P = Plan(ctx)
    ctx.part(whole, P)
    ctx.part(update, P)


def grid_hooks():
    h = {}

    def ev(name):
        def hook(I, st, e, d, O, obj):
            w = O if O is not None else I.lval(obj, st)
            vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
            I.emit('call', 'grid-' + name, st, e['l'], args=vs, obj=w, decl=d)
            return w if name == '=' else None
        return hook
    for c in ('BlockMemGridmap', 'BlockMemGridmapBase'):
        for n in ('reset', 'clear', 'clear_positive', 'clear_partially', 'copy_partially'):
            h['planner_cspace::%s::%s' % (c, n)] = ev(n)
        h['planner_cspace::%s::operator=' % c] = ev('=')
    return h


def of_grid(I, name, o):
    """(event, guard) of an operation on a map"""
    out = []
    for e in I.events:
        if e.kind == 'call' and e.name == 'grid-' + name and e.obj is not None:
            for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)):
                if t is o:
                    out.append((e, AND(e.g, g)))
    return out


def msg_f(m, *names):
    t = mk('deref', m)
    for n in names:
        t = mk('fld', t, n)
    return t


def vec_is(ctx, rule, I, v, want, site, what, pre=TRUE):
    """a vector value has the given components"""
    for i, w in enumerate(want):
        same_val(ctx, rule, coord(I, v, i), w if isinstance(w, N) else leaf(w), site, '%s: component %d is' % (what, i), pre)


def coord(I, v, i):
    def one(t):
        if t.op == 'vec':
            return leaf(t.args[i])
        return I.freeze(I.getelem(I.getfld(leaf(t), 'e_'), leaf(num(i))))
    return lift1(one, I.freeze(v))


def grid_op(ctx, rule, I, name, o, pre, what):
    """the one operation of this kind on a map"""
    es = of_grid(I, name, o)
    g = OR(*[x for e, x in es]) if es else FALSE
    ctx.entail(rule, pre, g, what, 'no %s of %s' % (name, show(o)))
    ctx.ob(rule, len(es) == 1 and not es[0][0].loops, what, '%d times %s of %s' % (len(es), name, show(o)))
    return es[0][0] if len(es) == 1 else None


def first_write(I, o):
    """sequence number of the first change of cells of a map"""
    s = [e.seq for e, g, t, m, c in stores(I, o)]
    return min(s) if s else None


def strip8(t):
    return t.args[0] if t.op == 'n8' and isinstance(t.args[0], T) else t


def old(t, o):
    """the value a cell had: reads through the loops denote the present value of the same cell"""
    els = mk('fld', o, '#elems')

    def go(x):
        if not isinstance(x, T) or not x.args:
            return x
        if x.op == 'elem' and isinstance(x.args[0], T) and (x.args[0] is els or x.args[0] is o or (x.args[0].op == 'phi' and x.args[0].args[1] is els)):
            return mk('elem', o, go(x.args[1]))
        return x
    return go(t)


def renew(g, mp, o):
    """subst of the loop variables, with reads of the map normalised"""
    m = {}
    for t in terms_in(g, 'elem'):
        u = old(t, o)
        if u is not t:
            m[t] = u
    g = subst(g, m) if m else g
    return subst(g, mp) if mp else g


def drop(g):
    """without the conditions on which other loops ended"""
    return exists_other(g, [])


def cells(ctx, rule, I, o, box, want, pre, what, lowest=None):
    """every cell of the box gets the wanted value, and no other is changed; want: [(guard, term or None for unchanged)]"""
    ss = [x for x in stores(I, o)]
    ctx.ob(rule, bool(ss), what, 'no cell is set')
    cover = []
    same = (mk('elem', o, mk('vec', *CELL)), mk('elem', o, mk('vec', CELL[0], CELL[1], num(0))))
    for e, g, t, m, cg in ss:
        keys = [leaf(k) for k in sweep.key_of(m, 3)]
        for v in visits(keys, g, e.loops):
            vg = drop(renew(v.g, v.mp, o))
            ctx.entail(rule, AND(pre, vg), box, at(e), 'a cell outside of the region is changed')
            mins = {}
            for gx, tx in cases(e.val):
                tx = strip8(tx)
                if lowest and tx.op == 'phi' and lowest(tx, v):
                    mins[tx] = LEAST
            for gx, tx in cases(e.val):
                gx = drop(subst(AND(renew(v.g, v.mp, o), renew(gx, v.mp, o)), mins))
                if not sat(AND(pre, gx)):
                    continue
                tx = subst(strip8(subst(old(tx, o), v.mp)), mins)
                if tx in same:
                    continue
                cover.append((gx, tx, v, e))
                for gw, tw in want:
                    z = AND(pre, gx, gw)
                    if tw is tx:
                        continue
                    if tw is not None and not sat(AND(z, NOT(IN.eq_leaf(tx, tw)))):
                        continue
                    ctx.entail(rule, z, FALSE, at(e), 'cell becomes %s instead of %s' % (show(tx)[:160], show(tw)[:160] if tw is not None else 'unchanged'))
    done = OR(*[g for g, t, v, e in cover]) if cover else FALSE
    for gw, tw in want:
        if tw is None:
            continue
        ctx.entail(rule, AND(pre, box, gw), done, what, 'a cell is left out')
    # no iteration is cut off
    seen = set()
    for g, t, v, e in cover:
        k = tuple(l.id for l in v.loops)
        if k in seen:
            continue
        seen.add(k)
        for l, E in stops(v.loops, v.mp, AND(pre, box)):
            ctx.entail(rule, E, FALSE, '%s:%d' % (l.file, l.line), 'the sweep ends early')
    return cover


def lt8(a, b):
    return tobool(cmpv('<', leaf(a), leaf(b), True))


def at_addr(m, x, y, a, info):
    """cost of a cell of the message"""
    w, h = info
    return t_add(t_mul(t_add(t_mul(a, h), y), w), x)


def region(c, lo, n):
    return AND(tobool(cmpv('<=', leaf(lo), leaf(c), True)), lt8(c, t_add(lo, n)))


# ---- whole map ---------------------------------------------------------------------------------------------------------
def whole(ctx, P):
    f = P.fn('cbMap')
    m = par(f, 0)
    site = f.name
    I, r, st = P.run(f, container_index=GRID, hooks=grid_hooks(), quiet=['publishEmptyPath', 'resetGridAstarModel', 'createCostEstimCache', 'cbMapUpdate'])
    info = msg_f(m, 'info')
    W, H, A = [msg_f(m, 'info', n) for n in ('width', 'height', 'angle')]
    for t in (W, H, A):
        int_terms.add(t)
    cc = P.f('cc_')
    END = OR(*[x.g for x in (st,) if x is not None])
    # stop first
    es = by(I, 'publishEmptyPath')
    exactly(ctx, 'new-map-stops', es, TRUE, site, 'empty path')
    first = min([e.seq for e in I.events if e.kind in ('store', 'clear', 'push') and (e.loc is None or of_this([t for g, t in cases(e.loc)]))] or [0])
    for e in es:
        ctx.ob('new-map-stops', e.seq < first, at(e), 'the robot is stopped after the map changed')
    # kept description
    want = {'map_info_': info, 'map_header_': msg_f(m, 'header')}
    for n, w in want.items():
        same_val(ctx, 'map-kept', val(I, st, P.f(n)), leaf(w), site, n)
    same_val(ctx, 'map-kept', val(I, st, mk('fld', P.f('jump_'), 'map_frame_')), leaf(msg_f(m, 'header', 'frame_id')), site, 'frame of the jump detector')
    ec = [t_fdiv(num(1), mk('fld', cc, 'max_vel_')), t_fdiv(num(1), mk('fld', cc, 'max_vel_')), t_fdiv(mk('fld', cc, 'weight_ang_vel_'), mk('fld', cc, 'max_ang_vel_'))]

    def estimate(s, g, where):
        for i in range(3):
            same_val(ctx, 'model-of-map', val(I, s, mk('elem', mk('fld', P.f('ec_'), 'e_'), num(i))), leaf(ec[i]), where, 'estimated cost, component %d' % i, g)
    estimate(st, TRUE, site)
    res = FALSE
    for n in ('linear_resolution', 'angular_resolution'):
        res = OR(res, NOT(tobool(cmpv('==', leaf(mk('fld', P.f('map_info_'), n)), leaf(msg_f(m, 'info', n))))))
    es = by(I, 'resetGridAstarModel')
    exactly(ctx, 'model-of-map', es, res, site, 'new model of moves')
    for e in es:
        same_bool(ctx, 'model-of-map', e.args[0], TRUE, at(e), 'forced', e.g)
        same_val(ctx, 'model-of-map', val(I, then(I, e), P.f('map_info_')), leaf(info), at(e), 'map of the model', e.g)
        estimate(then(I, e), e.g, at(e))
    # sizes
    sizes = [(mk('fld', P.f('as_'), 'g_'), (W, H, A)), (P.f('cm_'), (W, H, A)), (P.f('cm_hyst_'), (W, H, A)), (P.f('cm_rough_'), (W, H, num(1))), (P.f('cm_updates_'), (W, H, num(1)))]
    for o, dim in sizes:
        e = grid_op(ctx, 'maps-resized', I, 'reset', o, TRUE, site)
        if e is None:
            continue
        vec_is(ctx, 'maps-resized', I, e.args[0], dim, at(e), 'size of %s' % show(o))
        w = first_write(I, o)
        ctx.ob('maps-resized', w is None or e.seq < w, at(e), '%s is resized after it was filled' % show(o))
    bbf = [e for e in I.events if e.kind == 'call' and e.name.startswith('planner_cspace::planner_3d::CostmapBBF::')]
    here = lambda e: all(t in (mk('deref', P.f('bbf_costmap_')), P.f('bbf_costmap_')) for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)))
    rs = [e for e in bbf if e.name.endswith('::reset') and here(e)]
    cl = [e for e in bbf if e.name.endswith('::clear') and here(e)]
    exactly(ctx, 'maps-resized', rs, TRUE, site, 'resize of the remembered costs')
    ctx.ob('remembered-forgotten', bool(rs or cl) and (not cl or not rs or max(e.seq for e in cl) > min(e.seq for e in rs)), site, 'the remembered costs are not cleared after the resize')
    ctx.entail('remembered-forgotten', END, g_of(cl), site, 'the remembered costs are kept')
    for e in rs:
        vec_is(ctx, 'maps-resized', I, e.args[0], (W, H, num(1)), at(e), 'size of the remembered costs')
    # distance maps
    di = [e for e in I.events if e.kind == 'call' and e.name.endswith('DistanceMap::init')]
    for n, g in (('cost_estim_cache_', TRUE), ('cost_estim_cache_static_', P.b0('enable_crowd_mode_'))):
        es = [(e, AND(e.g, h)) for e in di for h, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)) if t is P.f(n)]
        ctx.entail('distance-maps-prepared', g, OR(*[x for e, x in es]) if es else FALSE, site, '%s is not prepared' % n)
        for e, x in es:
            t = then(I, e)
            same_val(ctx, 'distance-maps-prepared', e.args[0], leaf(P.f('model_')), at(e), 'model', x)
            a = e.args[1]
            vec_is(ctx, 'distance-maps-prepared', I, I.getfld(a, 'euclid_cost'), ec, at(e), 'cost of moves', x)
            vec_is(ctx, 'distance-maps-prepared', I, I.getfld(a, 'size'), (W, H, num(1)), at(e), 'size', x)
            same_val(ctx, 'distance-maps-prepared', I.freeze(I.getfld(a, 'local_range')), leaf(P.f('local_range_')), at(e), 'local range', x)
            same_val(ctx, 'distance-maps-prepared', I.freeze(I.getfld(a, 'range')), leaf(P.f('range_')), at(e), 'range', x)
            far = IN.fn_leaf('round', t_fdiv(P.f('longcut_range_f_'), msg_f(m, 'info', 'linear_resolution')))
            same_val(ctx, 'distance-maps-prepared', I.freeze(I.getfld(a, 'longcut_range')), leaf(far), at(e), 'range of long cuts', x)
            same_val(ctx, 'distance-maps-prepared', I.freeze(I.getfld(a, 'resolution')), leaf(msg_f(m, 'info', 'linear_resolution')), at(e), 'resolution', x)
    # cells
    data = msg_f(m, 'data')
    x, y, a = CELL

    def d(x, y, a):
        return mk('elem', data, at_addr(m, x, y, a, (W, H)))
    box = AND(*[region(c, num(0), n) for c, n in zip(CELL, (W, H, A))])
    unk = P.f('unknown_cost_')
    neg = lt8(d(x, y, a), num(0))
    cells(ctx, 'cells-of-map', I, P.f('cm_'), box, [(neg, unk), (NOT(neg), d(x, y, a))], TRUE, site)
    # rough map: least over the headings
    flat = AND(region(x, num(0), W), region(y, num(0), H), tobool(cmpv('==', leaf(a), leaf(num(0)), True)))
    seen = []

    def lowest(t, v):
        return least(ctx, I, 'least-of-headings', t, v, d, A, seen, lambda c: [(lt8(c, num(0)), unk), (NOT(lt8(c, num(0))), c)])
    cells(ctx, 'least-of-headings', I, P.f('cm_rough_'), flat, [(TRUE, LEAST)], TRUE, site, lowest=lowest)
    # beside
    for n, w in (('cm_hyst_', 100), ('cm_updates_', 0)):
        e = grid_op(ctx, 'side-maps-cleared', I, 'clear', P.f(n), END, site)
        if e is not None:
            same_val(ctx, 'side-maps-cleared', strip_n(e.args[0]), leaf(num(w)), at(e), 'value of %s' % n)
            for z, g in of_grid(I, 'reset', P.f(n)):
                ctx.ob('side-maps-cleared', z.seq < e.seq, at(e), '%s is cleared before it is resized' % n)
            ctx.ob('side-maps-cleared', not stores(I, P.f(n)), at(e), 'cells of %s are set' % n)
    same_bool(ctx, 'side-maps-cleared', bval(I, st, P.f('has_hysteresis_map_')), FALSE, site, 'presence of a hysteresis map')
    same_bool(ctx, 'map-kept', bval(I, st, P.f('has_map_')), TRUE, site, 'presence of a map')
    hc = [e for e in I.events if e.kind == 'clear' and any(t is P.f('hyst_updated_cells_') for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)))]
    ctx.entail('side-maps-cleared', END, g_of(hc), site, 'cells of the previous path are kept')
    last = {n: max([e.seq for e, g, t, k, c in stores(I, P.f(n))] or [0]) for n in ('cm_', 'cm_rough_')}
    for n, o in (('cm_base_', 'cm_'), ('cm_rough_base_', 'cm_rough_')):
        cs = copies(I, P.f(n), P.f(o))
        ctx.entail('base-maps-are-copies', END, OR(*[g for s, g, e in cs]) if cs else FALSE, site, '%s is not set' % n)
        for s, g, e in cs:
            ctx.ob('base-maps-are-copies', s > last[o], at(e), '%s is copied before the map is filled' % n)
            a, b = [I.freeze(I.read1(mk('fld', x, '#elems'), st)) for x in (P.f(n), P.f(o))]
            same_val(ctx, 'base-maps-are-copies', a, b, at(e), 'cells of %s' % n)
    # regions
    for n, w in (('prev_map_update_x_min_', W), ('prev_map_update_x_max_', num(0)), ('prev_map_update_y_min_', H), ('prev_map_update_y_max_', num(0))):
        same_val(ctx, 'no-region-yet', val(I, st, P.f(n)), leaf(w), site, n, END)
    su = P.f('cost_estim_cache_static_update_')
    for k, ws in (('min', (W, H, num(0))), ('max', (num(0), num(0), num(0)))):
        for i in range(3):
            same_val(ctx, 'no-region-yet', val(I, st, mk('elem', mk('fld', mk('fld', su, k), 'e_'), num(i))), leaf(ws[i]), site, 'static region %s, component %d' % (k, i), END)
    # distance map for the goal, and the update that waited
    cs = by(I, 'createCostEstimCache')
    exactly(ctx, 'distance-map-of-new-map', cs, TRUE if END is TRUE else END, site, 'preparation of the distance map')
    for e in cs:
        t = then(I, e)
        same_bool(ctx, 'distance-map-of-new-map', e.args[0], TRUE, at(e), 'with the static map', e.g)
        ctx.ob('distance-map-of-new-map', e.seq > max([last['cm_'], last['cm_rough_']] + [z.seq for z in di] + [s for n, o in (('cm_base_', 'cm_'), ('cm_rough_base_', 'cm_rough_')) for s, g, z in copies(I, P.f(n), P.f(o))]), at(e), 'the distance map is made before the map is complete')
        same_bool(ctx, 'distance-map-of-new-map', bval(I, t, P.f('has_map_')), TRUE, at(e), 'presence of a map', e.g)
    rt = P.f('map_update_retained_')
    cu = by(I, 'cbMapUpdate')
    st1 = msg_f(m, 'header', 'stamp')
    ok = AND(bvar(rt), cmp_terms('<=', st1, msg_f(rt, 'header', 'stamp'), False))
    ctx.ob('waiting-update', bool(cu), site, 'the waiting update is not applied')
    exactly(ctx, 'waiting-update', cu, AND(END, ok), site, 'the update that waited for the map')
    once(ctx, 'waiting-update', cu, site, 'the update that waited for the map')
    for e in cu:
        same_val(ctx, 'waiting-update', e.args[0], leaf(rt), at(e), 'update', e.g)
        for z in cs:
            ctx.ob('waiting-update', e.seq > z.seq, at(e), 'the update is applied before the distance map is made')
    same_val(ctx, 'waiting-update', val(I, st, rt), leaf(mk('null')), site, 'waiting update', END)


def strip_n(v):
    return lift1(lambda t: leaf(strip8(t)), v)


def copies(I, o, src):
    """(sequence, guard, event) of assignments of one map to another"""
    out = []
    for e in I.events:
        if e.kind == 'store' and e.loc is not None:
            for g, t in cases(e.loc):
                if t is o:
                    out.append((e.seq, AND(e.g, g), e))
    return out


LEAST = mk('par', 'least')
int_terms.add(LEAST)


def least(ctx, I, rule, t, v, d, A, seen, values):
    """t, carried out of the loop over the headings of a cell, is the least of 100 and the costs of the cell; values: what a cost of the message counts as"""
    L = [l for l in I.loop_info if l.id == t.args[0]]
    if len(L) != 1:
        return False
    L = L[0]
    if t in seen:
        return True
    seen.append(t)
    site = '%s:%d' % (L.file, L.line)
    loc = t.args[1]
    same_val(ctx, rule, I.freeze(I.read1(loc, L.entry)), leaf(num(100)), site, 'least cost before the headings is', L.entry.g)
    m = dict(v.mp)
    dd = d(CELL[0], CELL[1], L.ind)
    g = exists_other(subst(L.next.g, m), [L.ind])
    nx = subst(strip_n(I.freeze(I.read1(loc, L.next))), m)
    for gd, w in values(dd):
        forms = (w, mk('n8', w)) if w.op != 'elem' else (w,)
        for gt, u in cases(nx):
            u = strip8(u)
            z = AND(g, gd, gt)
            if not sat(z):
                continue
            if u is t:
                ctx.entail(rule, z, OR(*[NOT(lt8(x, t)) for x in forms]), site, 'a lesser cost is not kept')
            elif u is w or not sat(AND(z, NOT(IN.eq_leaf(u, w)))):
                ctx.entail(rule, z, OR(*[le8(x, t) for x in forms]), site, 'a higher cost is kept')
            else:
                ctx.entail(rule, z, FALSE, site, 'kept cost %s' % show(u)[:160])
    e0 = exists_other(subst(L.entry.g, m), [])
    ctx.entail(rule, AND(e0, region(L.ind, num(0), A)), g, site, 'a heading is left out')
    ctx.entail(rule, AND(g, le8(num(0), L.ind)), region(L.ind, num(0), A), site, 'a heading that is not in the message is looked at')
    return True


def le8(a, b):
    return tobool(cmpv('<=', leaf(a), leaf(b), True))


# ---- update of a region ------------------------------------------------------------------------------------------------
def same_int(ctx, rule, got, want, site, what, pre=TRUE):
    bad = FALSE
    for g, t in cases(got):
        for h, u in cases(want):
            if t is not u:
                bad = OR(bad, AND(pre, g, h, NOT(cmp_terms('==', t, u, True))))
    return ctx.entail(rule, bad, FALSE, site, '%s differs' % what)


def low(a, b):
    return lift2(lambda x, y: IN.ite(cmp_terms('<=', x, y, True), leaf(x), leaf(y)), a, b)


def high(a, b):
    return lift2(lambda x, y: IN.ite(cmp_terms('<=', x, y, True), leaf(y), leaf(x)), a, b)


def plus(a, k):
    return lift1(lambda t: leaf(t_add(t, num(k))), a)


def update(ctx, P):
    f = P.fn('applyCostmapUpdate')
    m = par(f, 0)
    site = f.name
    I, r, st = P.run(f, container_index=GRID, hooks=grid_hooks(), quiet=['createCostEstimCache', 'clearHysteresis', 'publishDebug', 'publishRememberedMap'], values=['metric2Grid'])
    X, Y, Z, W, H, A = [msg_f(m, n) for n in ('x', 'y', 'yaw', 'width', 'height', 'angle')]
    MW, MH, MA = [mk('fld', P.f('map_info_'), n) for n in ('width', 'height', 'angle')]
    for t in (X, Y, Z, W, H, A, MW, MH, MA):
        int_terms.add(t)
    x1 = high(leaf(t_sub(t_add(X, W), num(1))), leaf(num(0)))
    y1 = high(leaf(t_sub(t_add(Y, H), num(1))), leaf(num(0)))
    lt_ = lambda a, b: tobool(lift2(lambda x, y: cmp_terms('<', x, y, True), a, b))
    acc = AND(lt_(x1, leaf(MW)), lt_(y1, leaf(MH)), NOT(lt_(leaf(MA), leaf(A))))
    ctx.entail('fits-or-waits', TRUE, TRUE, site)
    rt = P.f('map_update_retained_')
    # an update that does not fit waits, and nothing else happens
    same_val(ctx, 'fits-or-waits', val(I, st, rt), leaf(m), site, 'waiting update', NOT(acc))
    same_val(ctx, 'fits-or-waits', val(I, st, rt), leaf(mk('null')), site, 'waiting update', AND(st.g, acc))
    for e in I.events:
        if e.kind == 'store' and e.loc is not None and any(of_this([t]) and t is not rt for g, t in cases(e.loc)) or e.kind in ('push', 'clear', 'publish') or (e.kind == 'call' and (e.name.startswith('grid-') or e.name.startswith('planner_cspace::'))):
            ctx.entail('fits-or-waits', e.g, acc, at(e), 'an update that does not fit has an effect')
    # time of the costmap
    nows = [e for e in I.events if e.kind == 'call' and e.val is not None and any(t.op == 'now' for g, t in cases(e.val if isinstance(e.val, N) else leaf(e.val)))]
    lc = val(I, st, P.f('last_costmap_'))
    for g, t in cases(lc):
        if t is P.f('last_costmap_'):
            ctx.entail('costmap-time', AND(g, st.g), NOT(acc), site, 'an applied update does not count as new costmap')
        else:
            ctx.ob('costmap-time', t.op == 'now', site, 'time of the costmap is %s' % show(t)[:80])
    # previous update taken back
    prev = {(k, i): P.f('prev_map_update_%s_%s_' % (i, k)) for k in ('min', 'max') for i in 'xy'}
    top = {'cm_': t_sub(MA, num(1)), 'cm_rough_': num(0), 'cm_updates_': num(0)}
    for n, name in (('cm_', 'copy_partially'), ('cm_rough_', 'copy_partially'), ('cm_updates_', 'clear_partially')):
        e = grid_op(ctx, 'previous-update-undone', I, name, P.f(n), acc, site)
        if e is None:
            continue
        if name == 'copy_partially':
            same_val(ctx, 'previous-update-undone', lift1(lambda t: leaf(t.args[0] if t.op in ('deref', 'ref') else t), e.args[0]), leaf(P.f(n.rstrip('_') + '_base_')), at(e), 'source of %s' % n, e.g)
        else:
            same_val(ctx, 'previous-update-undone', strip_n(e.args[0]), leaf(num(-1)), at(e), 'value of %s' % n, e.g)
        for i, c in enumerate('xy'):
            same_val(ctx, 'previous-update-undone', coord(I, e.args[1], i), leaf(prev['min', c]), at(e), 'begin of the region', e.g)
            same_val(ctx, 'previous-update-undone', coord(I, e.args[2], i), leaf(prev['max', c]), at(e), 'end of the region', e.g)
        same_val(ctx, 'previous-update-undone', coord(I, e.args[1], 2), leaf(num(0)), at(e), 'first heading', e.g)
        same_val(ctx, 'previous-update-undone', coord(I, e.args[2], 2), leaf(top[n]), at(e), 'last heading', e.g)
        w = first_write(I, P.f(n))
        ctx.ob('previous-update-undone', w is not None and e.seq < w, at(e), 'the previous update is taken back after the cells are set')
    # regions
    fin = AND(st.g, acc)
    reg = {('min', 'x'): leaf(X), ('max', 'x'): x1, ('min', 'y'): leaf(Y), ('max', 'y'): y1}
    for k, w in reg.items():
        same_int(ctx, 'region-remembered', val(I, st, prev[k]), w, site, 'region %s %s' % k, fin)
    su = P.f('cost_estim_cache_static_update_')
    for k, fn in (('min', low), ('max', high)):
        for i, c in enumerate('xy'):
            l = mk('elem', mk('fld', mk('fld', su, k), 'e_'), num(i))
            int_terms.add(l)
            same_int(ctx, 'region-remembered', val(I, st, l), fn(leaf(l), reg[k, c]), site, 'static region %s %s' % (k, c), fin)
    # cells
    data = msg_f(m, 'data')
    x, y, a = CELL

    def d(x, y, a):
        return mk('elem', data, at_addr(m, t_sub(x, X), t_sub(y, Y), a, (W, H)))
    here = d(x, y, t_sub(a, Z))
    xy = AND(region(x, X, W), region(y, Y, H))
    box = AND(xy, region(a, Z, A))
    flat = AND(xy, tobool(cmpv('==', leaf(a), leaf(num(0)), True)))
    cur = lambda n: mk('elem', P.f(n), mk('vec', *CELL))
    ow = P.b0('overwrite_cost_')
    neg = lt8(here, num(0))
    more = lt8(cur('cm_'), here)
    cells(ctx, 'cells-of-update', I, P.f('cm_'), box, [(AND(ow, NOT(neg)), here), (AND(ow, neg), None), (AND(NOT(ow), more), here), (AND(NOT(ow), NOT(more)), None)], acc, site)
    seen = []

    def lowest(t, v):
        return least(ctx, I, 'least-of-headings', t, v, d, A, seen, lambda c: [(TRUE, c)])
    rough = lt8(mk('elem', P.f('cm_rough_'), mk('vec', x, y, num(0))), LEAST)
    cells(ctx, 'cells-of-update', I, P.f('cm_rough_'), flat, [(rough, LEAST), (NOT(rough), None)], acc, site, lowest=lowest)
    cells(ctx, 'cells-of-update', I, P.f('cm_updates_'), flat, [(TRUE, LEAST)], acc, site, lowest=lowest)
    last = max([e.seq for n in ('cm_', 'cm_rough_', 'cm_updates_') for e, g, t, k, c in stores(I, P.f(n))] or [0])
    collisions(ctx, P, I, st, acc, box, here, site)
    after(ctx, P, I, st, acc, site, last, prev, reg)


def collisions(ctx, P, I, st, acc, box, here, site):
    """a new obstacle on the previous path drops the hysteresis"""
    rule = 'new-obstacle-on-path'
    es = by(I, 'clearHysteresis')
    ctx.ob(rule, len(es) == 1, site, '%d places' % len(es))
    if len(es) != 1:
        return
    g = drop(es[0].g)
    ph = {t for x in dvars(g) for t in [TM.atoms[x]] if t.op == 'phi'} | {t for t in subterms(g) if isinstance(t, T) and t.op == 'phi' and not str(show(t.args[1])).endswith('#elems')}
    ctx.ob(rule, len(ph) == 1, at(es[0]), 'depends on %s' % ', '.join(show(t) for t in ph))
    if len(ph) != 1:
        return
    t = ph.pop()
    loc = t.args[1]
    L0 = [l for l in I.loop_info if l.id == t.args[0]][0]
    same_bool(ctx, rule, tobool(I.freeze(I.read1(loc, L0.entry))), FALSE, site, 'collision before the cells are seen', L0.entry.g)
    hit = tobool(leaf(t))
    has = P.b0('has_hysteresis_map_')
    exactly(ctx, rule, g, AND(acc, hit, has), site, 'removal of the hysteresis')
    same_bool(ctx, rule, drop(bval(I, st, P.f('has_hysteresis_map_'))), AND(has, NOT(AND(acc, hit))), site, 'presence of a hysteresis map')
    hy = P.f('cm_hyst_')
    want = AND(box, tobool(cmpv('==', leaf(here), leaf(num(100)), True)), tobool(cmpv('==', leaf(mk('elem', hy, mk('vec', *CELL))), leaf(num(0)), True)))
    got = FALSE
    vs = []
    for e in I.events:
        if e.kind != 'store' or e.loc is None or not any(u is loc for h, u in cases(e.loc)) or not e.loops:
            continue
        v = tobool(e.val)
        flags = [x for x in dvars(AND(e.g, v)) | dvars(e.g) | dvars(v) if TM.atoms[x].op == 'phi' and TM.atoms[x].args[1] is loc]
        h, keep = AND(e.g, v), AND(e.g, NOT(v))
        for x in flags:
            h = restrict1(h, x, False)
            keep = restrict1(keep, x, True)
        ctx.entail(rule, keep, FALSE, at(e), 'a collision is forgotten')
        h = renew(h, {}, hy)
        ks = {q.args[1] for q in terms_in(h, 'elem') if q.args[0] is hy}
        ctx.ob(rule, len(ks) == 1, at(e), '%d cells of the hysteresis map are looked at' % len(ks))
        if len(ks) != 1:
            return
        for z in visits([leaf(c) for c in sweep.key_of(mk('elem', hy, ks.pop()), 3)], h, e.loops):
            zg = drop(renew(z.g, z.mp, hy))
            ctx.entail(rule, AND(acc, zg), want, at(e), 'a cell counts as a collision')
            got = OR(got, zg)
            vs.append((z, e))
    ctx.entail(rule, AND(acc, want), got, site, 'a collision is overlooked')
    for z, e in vs:
        for l, E in stops(z.loops, z.mp, AND(acc, want)):
            ctx.entail(rule, E, FALSE, '%s:%d' % (l.file, l.line), 'the sweep ends early')


def after(ctx, P, I, st, acc, site, last, prev, reg):
    """what follows an applied update"""
    b0 = P.b0
    bb = [mk('deref', P.f('bbf_costmap_')), P.f('bbf_costmap_')]
    on = lambda n: [e for e in I.events if e.kind == 'call' and e.name.endswith('CostmapBBF::' + n) and any(t in bb for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)))]
    mem = AND(acc, b0('has_start_'), b0('remember_updates_'))
    cell = lambda n: leaf(mk('call', 'metric2Grid', mk('fld', P.f(n), 'pose')))
    comps = lambda v: [lift1(lambda t: leaf(mk('elem', mk('fld', t, 'e_'), num(i))), v) for i in range(3)]
    order = []
    for es, what in ((on('remember'), 'memory of the update'), (by(I, 'publishRememberedMap'), 'publication of the memory'), (on('updateCostmap'), 'update of the remembered costs')):
        gs = drop(g_of(es))
        exactly(ctx, 'update-is-remembered', gs, mem, site, what)
        once(ctx, 'update-is-remembered', es, site, what)
        order.append([e.seq for e in es])
        for e in es:
            ctx.ob('update-is-remembered', e.seq > last, at(e), '%s before the cells are set' % what)
    ctx.ob('update-is-remembered', all(x < y for x in order[0] for q in order[1:] for y in q), site, 'remembered costs are used before the update is remembered')
    for e in on('remember'):
        same_val(ctx, 'update-is-remembered', e.args[0], leaf(mk('addr', P.f('cm_updates_'))), at(e), 'costs', e.g)
        vec_is(ctx, 'update-is-remembered', I, e.args[1], comps(cell('start_')), at(e), 'cell of the robot', e.g)
        for i, n in enumerate(('remember_hit_odds_', 'remember_miss_odds_', 'hist_ignore_range_', 'hist_ignore_range_max_')):
            same_val(ctx, 'update-is-remembered', e.args[2 + i], leaf(P.f(n)), at(e), n, e.g)
    # distance map
    go = AND(acc, b0('has_start_'), b0('has_goal_'))
    cm = P.f('cm_')
    els = mk('fld', cm, '#elems')
    made = by(I, 'createCostEstimCache')
    up = [e for e in I.events if e.kind == 'call' and e.name.endswith('DistanceMap::update') and any(t is P.f('cost_estim_cache_') for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)))]
    for e in made + up:
        ctx.ob('distance-map-follows', e.seq > last and e.seq > max(order[0] + order[2] + [0]), at(e), 'the distance map is made before the costs are complete')
        for t in terms_in(e.g, 'elem'):
            ctx.ob('distance-map-follows', t.args[0] is not els, at(e), 'the cost of the goal is read before the update')
    gm, gu = drop(renew(g_of(made), {}, cm)), drop(renew(g_of(up), {}, cm))
    occ = tobool(cmpv('==', leaf(mk('elem', cm, mk('vec', *[cases(c)[0][1] for c in comps(cell('goal_'))]))), leaf(num(100)), True))
    fast = b0('fast_map_update_')
    again = AND(go, OR(NOT(fast), NOT(b0('cost_estim_cache_created_')), occ))
    exactly(ctx, 'distance-map-follows', gm, again, site, 'new distance map')
    exactly(ctx, 'distance-map-follows', gu, AND(go, NOT(again)), site, 'update of the distance map')
    once(ctx, 'distance-map-follows', made, site, 'new distance map')
    once(ctx, 'distance-map-follows', up, site, 'update of the distance map')
    for e in made:
        same_bool(ctx, 'distance-map-follows', e.args[0], FALSE, at(e), 'with the static map', e.g)
    lim = {'x': mk('fld', P.f('map_info_'), 'width'), 'y': mk('fld', P.f('map_info_'), 'height')}
    for e in up:
        vec_is(ctx, 'distance-map-follows', I, e.args[0], comps(cell('start_')), at(e), 'start', e.g)
        vec_is(ctx, 'distance-map-follows', I, e.args[1], comps(cell('goal_')), at(e), 'goal', e.g)
        for i, c in enumerate('xy'):
            lo = high(leaf(num(0)), plus(low(leaf(prev['min', c]), reg['min', c]), -1))
            hi = low(leaf(t_sub(lim[c], num(1))), plus(high(leaf(prev['max', c]), reg['max', c]), 1))
            rmin, rmax = [coord(I, I.freeze(I.getfld(e.args[2], k)), i) for k in ('min', 'max')]
            same_int(ctx, 'distance-map-follows', rmin, lo, at(e), 'begin of the changed region', e.g)
            same_int(ctx, 'distance-map-follows', rmax, hi, at(e), 'end of the changed region', e.g)
        for k in ('min', 'max'):
            same_val(ctx, 'distance-map-follows', coord(I, I.freeze(I.getfld(e.args[2], k)), 2), leaf(num(0)), at(e), 'heading of the changed region', e.g)
