"""Local map cut out of a large map: window, values of the cells, rounding, surroundings and occlusion."""
from core import *
from numlib import *
from rosmodel import *
from c01 import exit_guard
from c02 import every_index, fresh_state
from c04 import pub_hook, callbacks_loc, robot_terms, rounding, throws_of, all_throws, LOOKUP, fl, dterms, IN_inv
from rat import Rat, same
from terms import witness
UNITS = ['costmap_cspace/src/largemap_to_map.cpp']
EXPLANATION = ('The timer callback is summarised; window and values of all cells are compared as guarded real expressions with the definition of the cut, the loops are shown to visit every cell, '
               'and the table of hidden cells is checked entry by entry with the rays from the centre.')
ASSUMPTIONS = ['real arithmetic', 'a large map has as many cells as its size says', 'positive resolution and width']
CLS = 'LargeMapToMapNode'
HALF = num(Fraction(1, 2))


def check(ctx):
    N_ = RosNode(ctx, CLS, [])
    ctx.part(kept, N_)
    ctx.part(table, N_)
    ctx.part(cut, N_)


def kept(ctx, N_):
    fresh_state()
    f = N_.callback('map')
    I, r, st = N_.run(f)
    p = par(f, 0)
    ls = written(I, st)
    ok = [l for l in ls if all(t is p for t in leaves(I.freeze(I.read1(l, st)))) and 'weak' not in show(l)]
    ctx.ob('large-map', len(ok) == 1, at(f), 'the received map is not kept')
    N_.large = ok[0] if ok else None
    tm = N_.timers
    ctx.ob('timer', len(tm) == 1, at(N_.ctor), 'no timer publishes the map')
    for u, e in tm:
        per = I.freeze(e.args[0])
        ctx.ob('timer', all(show(t).strip('()') == 'param(hz)^-1' for t in leaves(per)), at(e), 'the map is published every %s' % show(per))
        ctx.entail('timer', TRUE, exists_other(e.g, []), at(e), 'the timer is not started') if not dloops(e.g) else None


def dloops(g):
    return any(t.op in ('ind', 'phi', 'fld') for t in dterms(g))


def table(ctx, N_):
    """lists of the cells hidden by a cell"""
    I = N_.I
    site = at(N_.ctor)
    W = [l for n, l in N_.params.items() if n == 'width']
    ctx.ob('parameters', bool(W), site, 'no width')
    pushes = [e for e in I.events if e.kind == 'push' and e.obj is not None and any(t.op == 'elem' and t.args[0].op == 'fld' and rootloc(t).op == 'this' for t in callbacks_loc(e.obj))]
    ctx.ob('hidden-cells', bool(pushes), site, 'no cell hides another one')
    N_.table = None
    w = I.freeze(I.read1(W[0], N_.st)).leaf if W else None
    if w is None:
        raise Unsupported('width')
    IN.int_terms.add(w)
    for e in pushes:
        if len(e.loops) != 2:
            raise Unsupported('loops over cells and rays')
        la, lr = e.loops
        v = I.freeze(e.args[0])
        a = v.leaf
        every_index(ctx, 'hidden-cells', at(e), la, a, t_mul(w, w))
        x = t_sub(imod(a, w), t_mul(HALF, w))
        y = t_sub(idiv(a, w), t_mul(HALF, w))
        l2 = t_add(t_mul(x, x), t_mul(y, y))
        ln = [t for g in (lr.body_g,) for t in dterms(g) if t.op == 'fn' and t.args[0] in ('sqrt', 'hypot')]
        ex = Rat()
        ok = [t for t in dict.fromkeys(ln) if t.args[0] == 'sqrt' and same(ex, leaf(t.args[1]), leaf(l2))[0] or t.args[0] == 'hypot' and same(ex, leaf(t_add(t_mul(t.args[1], t.args[1]), t_mul(t.args[2], t.args[2]))), leaf(l2))[0]]
        ctx.ob('hidden-cells', len(ok) == 1, at(e), 'the ray ends at another distance than that of the cell')
        if len(ok) != 1:
            continue
        ln = ok[0]
        rr = t_add(ONE, t_mul(HALF, lr.ind))
        lo = cmp_terms('>=', lr.ind, ZERO, True)
        go = cmp_terms('<', rr, t_sub(ln, ONE), False)
        ctx.entail('hidden-cells', AND(lo, e.g), go, at(e), 'a ray is followed too far')
        ctx.entail('hidden-cells', AND(lo, la.body_g, go), e.g, at(e), 'a ray is cut off')
        for g, t in cases(e.obj):
            k = t.args[1]
            us = [u for u in subterms(k) if isinstance(u, T) and rounding(u) is not None]
            X = Y = None
            for u in dict.fromkeys(us):
                for c in 'xy':
                    want = t_add(t_mul(HALF, w), t_mul(t_mul(x if c == 'x' else y, rr), IN_inv(ln)))
                    if same(ex, leaf(rounding(u)), leaf(want))[0] and (u.op == 'trunc' or u.args[0] == 'floor'):
                        if c == 'x':
                            X = u
                        else:
                            Y = u
            ctx.ob('hidden-cells', X is not None and Y is not None, at(e), 'the hiding cell is not on the ray to the hidden one')
            if X is not None and Y is not None:
                if k.op == 'U':
                    k = k.args[0]
                agree(ctx, 'hidden-cells', at(e), leaf(k), leaf(t_add(t_mul(Y, w), X)))
            N_.table = t.args[0]
    # a cell does not hide itself
    own = [e for e in I.events if e.kind == 'erase']
    selfish = False
    for e in own:
        ts = [t for a in e.args for t in leaves(I.freeze(a))]
        txt = ' '.join(show(t) for t in ts)
        fin = [x for t in ts for x in subterms(t) if isinstance(x, T) and x.op in ('pos', 'call') and str(x.args[0]) in ('std::find', 'std::lower_bound', 'std::find_if')]
        uni = [x for t in ts for x in subterms(t) if isinstance(x, T) and x.op in ('pos', 'call') and str(x.args[0]) == 'std::unique']
        ob = [t for t in callbacks_loc(e.obj)]
        key = {x for t in ob for x in subterms(t) if isinstance(x, T) and x.op == 'key'}
        if len(ts) == 1 and fin and all(any(k in f.args for k in key) for f in fin[-1:]):
            selfish = True
            ctx.ob('hidden-cells', len(e.loops) == 1 and e.loops[0].kind == 'rangefor' or len(e.loops) == 1, at(e), 'only some cells are spared')
        elif uni and len(ts) == 2:
            pass
        elif len(ts) == 1 and ts[0] in key:
            selfish = True
        else:
            ctx.ob('hidden-cells', False, at(e), 'entries are removed from the lists')
    # or the own cell is never entered
    guard_self = bool(pushes) and all(any('==' in show(bvar(atoms[v])) for v in dvars(e.g)) for e in pushes)
    ctx.ob('hidden-cells', selfish or guard_self, site, 'a cell hides itself')


def idiv(a, w):
    return mk('idiv', a, w)


def imod(a, w):
    return mk('imod', a, w)


def cut(ctx, N_):
    fresh_state()
    f = N_.func(N_.timers[0][0])
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    hk = node_hooks()
    hk['ros::Publisher::publish'] = pub_hook
    I = ctx.interp(hooks=hk)
    r, st = I.run(f)
    P = N_.params
    pub = N_.publisher('map_local')
    site = at(f)
    pubs = [e for e in I.events if e.kind == 'call' and e.name == 'ros::Publisher::publish' and any(t is pub for t in callbacks_loc(e.val))]
    ctx.ob('output', len(pubs) == 1, site, '%d messages are published' % len(pubs))
    if len(pubs) != 1 or N_.large is None:
        return
    e = pubs[0]
    ctx.ob('output', not e.loops, at(e), 'published inside a loop')
    ptr = N_.large
    B = mk('deref', ptr)
    have = I.tobool(leaf(ptr)) if hasattr(I, 'tobool') else bvar(ptr)
    thrown = all_throws(I)
    none = OR(*thrown) if thrown else FALSE
    g = exists_other(e.g, [])
    ctx.entail('output', g, have, at(e), 'published without a large map')
    ctx.entail('output', AND(have, NOT(none)), g, at(e), 'no map is published')
    v = e.args[0]
    I_ = I
    lk = [x for x in I.events if x.kind == 'call' and x.name == LOOKUP]
    ctx.ob('output', bool(lk), site, 'the pose of the robot is not looked up')
    # header and meta data
    hf = msgf(I, v, 'header', 'frame_id', ty=None)
    ctx.ob('header', all(t is fl(B, 'header', 'frame_id') for g_, t in cases(hf)), at(e), 'the frame is %s' % show(hf))
    hs = msgf(I, v, 'header', 'stamp', ty=None)
    ctx.ob('header', all(t.op == 'now' for t in leaves(I.freeze(hs))), at(e), 'the time is %s' % show(hs))
    w = P['width']
    IN.int_terms.add(w)
    R = fl(B, 'info', 'resolution')
    for n in ('width', 'height'):
        x = msgf(I, v, 'info', n)
        ctx.ob('window', all(unU(t) is w for t in leaves(x)), at(e), '%s of the map is %s' % (n, show(x)))
    x = msgf(I, v, 'info', 'resolution')
    ctx.ob('window', all(t is R for t in leaves(x)), at(e), 'the resolution is %s' % show(x))
    sz = msgf(I, v, 'data', '#size')
    ctx.ob('window', same(Rat(), sz, leaf(t_mul(w, w)))[0], at(e), 'the map has %s cells' % show(sz))
    O = {a: msgf(I, v, 'info', 'origin', 'position', a) for a in 'xyz'}
    rob = robot_terms([t for a in 'xy' for t in leaves(O[a])])
    ctx.ob('window', bool(rob), at(e), 'the window does not follow the robot')
    ex = Rat()
    for a in 'xy':
        us = [u for t in leaves(O[a]) for u in subterms(t) if isinstance(u, T) and rounding(u) is not None]
        good = False
        for u in dict.fromkeys(us):
            for p, (ax, _) in rob.items():
                if ax == a and same(ex, leaf(rounding(u)), leaf(t_mul(p, IN_inv(R))))[0]:
                    want = t_mul(R, t_sub(u, t_mul(HALF, w)))
                    good = good or same(ex, O[a], leaf(want))[0]
        ctx.ob('window', good, at(e), 'the window starts at %s = %s' % (a, show(O[a])[:300]))
    ctx.ob('window', all(t is ONE for t in leaves(msgf(I, v, 'info', 'origin', 'orientation', 'w'))), at(e), 'the orientation is not set')
    for t, (ax, l) in rob.items():
        ctx.ob('robot-pose', l.args[2] is fl(B, 'header', 'frame_id') and l.args[3] is P['robot_frame'], at(e), 'the window follows %s' % show(l)[:200])
        ctx.entail('robot-pose', e.g, NOT(throws_of(I, l)), at(e), 'the map is published although the pose of the robot is unknown')
    # cells
    M = e.loc.leaf if isinstance(e.loc, N) else e.loc
    data = fl(M, 'data')
    sts = []
    for x in I.events:
        if x.kind == 'store' and x.loc is not None:
            ls = [(h, t) for h, t in cases(x.loc) if t.op == 'elem' and t.args[0] is data]
            if ls:
                sts.append((x, ls))
        elif x.kind in ('assign', 'push', 'clear', 'erase') and x.obj is not None and any(t is data for t in callbacks_loc(x.obj)):
            raise Unsupported('cells changed by %s' % x.kind)
        elif x.kind == 'call' and x.name.startswith('std::') and any(t.op == 'it' and t.args[0] is data for a in x.args if isinstance(a, N) for t in leaves(a)):
            raise Unsupported('cells changed by %s' % x.name)
    hide = [s for s in sts if any(N_.table is not None and N_.table in subterms(l.args[1]) for h, l in s[1])]
    draw = [s for s in sts if s not in hide]
    order = {id(x): i for i, x in enumerate(I.events)}
    for a, _ in draw:
        for b, _ in hide:
            ctx.ob('occlusion', order[id(a)] < order[id(b)], at(a), 'cells are drawn after others were hidden')
        ctx.ob('cells', order[id(a)] < order[id(e)], at(a), 'cells are drawn after the map was published')
    ctx.part(drawn, N_, I, draw, e, B, O, R, w)
    ctx.part(hidden, N_, I, hide, e, data, w)


def unU(t):
    while t.op in ('U', 'cast') and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def drawn(ctx, N_, I, draw, pe, B, O, R, w):
    site = at(pe)
    ctx.ob('cells', bool(draw), site, 'no cell is drawn')
    nests = {}
    for x, ls in draw:
        nests.setdefault(tuple(l.id for l in x.loops), []).append((x, ls))
    ctx.ob('cells', len(nests) == 1, site, 'cells are drawn in %d places' % len(nests)) if draw else None
    P = N_.params
    flag = lambda n: I.tobool(leaf(P[n])) if hasattr(I, 'tobool') else bvar(P[n])
    ex = Rat()
    if len(nests) != 1:
        raise Unsupported('several drawing loops')
    for k, items in nests.items():
        loops = items[0][0].loops
        keys = {l.args[1] for x, ls in items for h, l in ls}
        keys = {unU(t) for t in keys}
        ctx.ob('cells', len(keys) == 1, site, 'different cells are drawn in one step')
        if len(keys) != 1:
            return
        key = list(keys)[0]
        if len(loops) == 2:
            got = None
            for ly, lx in ((loops[0], loops[1]), (loops[1], loops[0])):
                py = subst(t_sub(key, subst(key, {ly.ind: ZERO})), {})
                if same(ex, leaf(py), leaf(t_mul(w, ly.ind)))[0]:
                    rest = t_sub(key, py)
                    # constants of row and column: both loops start at the first one
                    if same(ex, leaf(t_sub(rest, lx.ind)), leaf(ZERO))[0]:
                        got = (lx.ind, ly.ind, lx, ly)
            ctx.ob('cells', got is not None, site, 'the drawn cell is %s' % show(key)[:300])
            if got is None:
                return
            X, Y, lx, ly = got
            every_index(ctx, 'cells', site, lx, X, w)
            every_index(ctx, 'cells', site, ly, Y, w)
            ctx.entail('cells', loops[0].body_g, loops[1].entry.g, site, 'rows are left out')
            lo = AND(cmp_terms('>=', X, ZERO, True), cmp_terms('>=', Y, ZERO, True))
        elif len(loops) == 1:
            l = loops[0]
            every_index(ctx, 'cells', site, l, key, t_mul(w, w))
            X, Y = imod(l.ind, w), idiv(l.ind, w)
            lo = AND(cmp_terms('>=', X, ZERO, True), cmp_terms('>=', Y, ZERO, True))
        else:
            raise Unsupported('drawing loops')
        inner = loops[-1]
        body = AND(inner.body_g, lo)
        val = None
        cov = FALSE
        for x, ls in items:
            vx = I.freeze(x.val)
            gx = x.g
            val = vx if val is None else ite(gx, vx, val)
            cov = OR(cov, gx)
        ctx.entail('cells', body, cov, site, 'cells are left as they were')
        ctx.entail('cells', AND(exists_other(pe.g, [])), exists_other(OR(exit_guard(loops[0]), loops[0].body_g), []), site, 'the map is published without cells')
        hw = t_mul(HALF, w)
        dx, dy = t_sub(X, hw), t_sub(Y, hw)
        r2 = t_add(t_mul(dx, dx), t_mul(dy, dy))
        far = cmp_terms('<', t_mul(hw, hw), r2, False)
        h2 = t_sub(hw, num(2))
        ring = AND(NOT(far), cmp_terms('<=', t_mul(h2, h2), r2, False))
        gx = offset(ctx, ex, items, key, O['x'], fl(B, 'info', 'origin', 'position', 'x'), R, site, 'x')
        gy = offset(ctx, ex, items, key, O['y'], fl(B, 'info', 'origin', 'position', 'y'), R, site, 'y')
        if gx is None or gy is None:
            return
        LW, LH = fl(B, 'info', 'width'), fl(B, 'info', 'height')
        for t in (LW, LH, gx, gy):
            IN.int_terms.add(t)
        lxx, lyy = t_add(X, gx), t_add(Y, gy)
        ins = AND(cmp_terms('>=', lxx, ZERO, True), cmp_terms('>=', lyy, ZERO, True), cmp_terms('<', lxx, LW, True), cmp_terms('<', lyy, LH, True))
        cell = mk('elem', fl(B, 'data'), t_add(t_mul(lyy, LW), lxx))
        want = ite(AND(flag('simulate_surrounded'), ring), numv(100), ite(AND(flag('round_local_map'), far), numv(-1), ite(ins, leaf(cell), numv(-1))))
        compare(ctx, site, val, want, AND(body, cov), ex)


def compare(ctx, site, val, want, g, ex):
    bad = None
    for ga, ta in cases(val):
        G = AND(g, ga)
        if G is FALSE or not sat(G):
            continue
        for gb, tb in cases(want):
            H = AND(G, gb)
            if H is FALSE or not sat(H):
                continue
            a, b = ta, tb
            if a is b:
                continue
            if a.op == 'elem' and b.op == 'elem' and a.args[0] is b.args[0] and same(ex, leaf(unU(a.args[1])), leaf(unU(b.args[1])))[0]:
                continue
            bad = 'is %s where %s is required, when %s' % (show(a)[:200], show(b)[:200], witness(H))
    ctx.ob('cells', bad is None, site, bad or '')


def offset(ctx, ex, items, key, o, lo, R, site, a):
    """cell of the large map at the first cell of the window"""
    want = lift1(lambda t: leaf(t_mul(t_sub(t, lo), IN_inv(R))), o)
    seen = []
    for x, ls in items:
        for t in list(dterms(x.g)) + [y for z in leaves(x.val if isinstance(x.val, N) else leaf(x.val)) for y in subterms(z)]:
            if isinstance(t, T) and t.op == 'fn' and t.args[0] in ('round', 'lround', 'rint', 'nearbyint') and t not in seen:
                seen.append(t)
                if same(ex, leaf(t.args[1]), want)[0]:
                    return t
            if isinstance(t, T) and t.op == 'fn' and t.args[0] == 'floor' and t not in seen:
                seen.append(t)
                if same(ex, leaf(t_sub(t.args[1], HALF)), want)[0]:
                    return t
    ctx.ob('cells', False, site, 'the window is not laid on the large map at its nearest cell (%s)' % a)
    return None


def hidden(ctx, N_, I, hide, pe, data, w):
    site = at(pe)
    ctx.ob('occlusion', bool(hide), site, 'no cell is hidden')
    P = N_.params
    on = I.tobool(leaf(P['simulate_occlusion'])) if hasattr(I, 'tobool') else bvar(P['simulate_occlusion'])
    for x, ls in hide:
        vs = leaves(I.freeze(x.val))
        ctx.ob('occlusion', all(t is num(-1) for t in vs), at(x), 'a hidden cell is %s' % show(x.val))
        if len(x.loops) != 2:
            raise Unsupported('loops over hiding and hidden cells')
        lo, li = x.loops
        for h, l in ls:
            t = unU(l.args[1])
            if not (t.op == 'elem' and t.args[0].op == 'elem' and t.args[0].args[0] is N_.table):
                ctx.ob('occlusion', False, at(x), 'the cell %s is hidden' % show(t)[:200])
                continue
            k = unU(t.args[0].args[1])
            n = fl(t.args[0], '#size')
            IN.int_terms.add(n)
            every_index(ctx, 'occlusion', at(x), lo, k, t_mul(w, w))
            every_index(ctx, 'occlusion', at(x), li, t.args[1], n)
            # the hiding cell is occupied
            occ = [v for v in dvars(x.g) if atoms[v].op in ('eqn', 'eq', 'rle', 'le', 'lt') and any(isinstance(y, T) and y.op == 'elem' and unU(y.args[1]) is k and y.args[0] is not N_.table for y in subterms(atoms[v]))]
            cur = {y for v in occ for y in subterms(atoms[v]) if isinstance(y, T) and y.op == 'elem' and unU(y.args[1]) is k and 'data' in show(y)}
            ctx.ob('occlusion', len(cur) == 1, at(x), 'free cells hide others')
            for y in cur:
                is100 = cmp_terms('==', y, num(100), True)
                ctx.entail('occlusion', x.g, is100, at(x), 'a cell that is not occupied hides others')
                ctx.entail('occlusion', AND(lo.body_g, is100), li.entry.g, at(x), 'an occupied cell hides nothing')
                ctx.entail('occlusion', li.body_g, x.g, at(x), 'a hidden cell stays visible')
        ctx.entail('occlusion', exists_other(x.g, []), on, at(x), 'cells are hidden without the option')
        ctx.entail('occlusion', AND(exists_other(pe.g, []), on), exists_other(OR(lo.body_g, exit_guard(lo)), []), at(x), 'cells are not hidden')
