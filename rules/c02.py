"""Footprint layer of the costmap: the template of costs around an obstacle and its stamping onto the costmap."""
from core import *
from numlib import *
from rosmodel import xml_hooks, quiet_call
from c01 import phi_loc, exit_guard
import sweep
UNITS = ['costmap_cspace/src/costmap_3d.cpp']
EXPLANATION = ('The template is derived cell by cell: the value stored for an arbitrary offset and heading is compared with the membership and distance of the moved outline, and every offset within the range is shown to be visited. '
               'The stamping loops are turned into the set of costmap cells an arbitrary map cell reaches (closed form of the pointers, solved for the loop counters), compared with the square around it, and the stored value with the maximum rule.')
ASSUMPTIONS = ['map cells are at most 100', 'positive resolutions and sizes', 'real arithmetic for costs of the template']
CL = 'costmap_cspace::Costmap3dLayerFootprint'
PG = 'costmap_cspace::Polygon'
CA = 'costmap_cspace::CSpace3Cache'


def check(ctx):
    ctx.part(cache)
    ctx.part(template)
    ctx.part(stamping)
    ctx.part(headings)
    ctx.part(target)
    ctx.part(forget)
    ctx.part(config)


def fresh_state():
    IN.int_terms.clear()
    IN.unsigned_terms.clear()


def owner(ctx, cls, name):
    """the function of that name in the class or the classes it is derived from here"""
    fs = [f for f in ctx.p.funcs.values() if f.cls == cls and f.name == name]
    if not fs:
        raise AnchorMissing('%s::%s' % (cls, name))
    return fs[0]


# ---- cache -----------------------------------------------------------------------------------------------------------
def cache(ctx):
    fresh_state()
    f = ctx.one(CA + '::reset')
    I = ctx.interp()
    x, y, a = [par(f, i) for i in range(3)]
    _, st = I.run(f)
    mp = {}
    for e in I.events:
        if e.kind == 'store' and e.loc is not None and e.loc.leaf is not None and e.val is not None and e.g is TRUE and isinstance(e.val, N) and e.val.leaf is not None:
            mp[e.loc.leaf] = unU(e.val.leaf)
    new = [e for e in I.events if e.kind in ('alloc', 'new')]
    es = [g for g in ctx.p.funcs.values() if g.cls == CA and g.name == 'e']
    ctx.need('template access', len(es), 1)
    for g in es:
        I2 = ctx.interp()
        r, st2 = I2.run(g)
        r = r if isinstance(r, T) else I2.freeze(r).leaf
        while r is not None and r.op == 'deref':
            r = r.args[0]
        if r is None or r.op != 'elem':
            ctx.ob('template-cells', False, at(g), 'the access yields %s' % (show(r) if r is not None else None))
            continue
        k = subst(unU(r.args[1]), {m: v for m, v in mp.items()})
        cells = [par(g, i) for i in range(3)]
        n0, n1 = t_add(t_mul(num(2), x), ONE), t_add(t_mul(num(2), y), ONE)
        want = t_add(t_mul(cells[2], t_mul(n0, n1)), t_add(t_mul(t_add(cells[1], y), n0), t_add(cells[0], x)))
        ctx.ob('template-cells', t_sub(k, want) is ZERO, at(g), 'offset (x,y,yaw) is stored at %s' % show(k))
    size = [m for m in mp if m.op == 'fld' and 'array_size' in str(m.args[1])]
    zero = [e for e in I.events if e.kind == 'call' and e.name in ('memset', 'std::memset', 'std::fill', 'std::fill_n')]
    tot = t_mul(a, t_mul(t_add(t_mul(num(2), x), ONE), t_add(t_mul(num(2), y), ONE)))
    ok = len(size) == 1 and t_sub(mp[size[0]], tot) is ZERO
    ctx.ob('template-cells', ok, at(f), 'the size is %s' % (show(mp[size[0]]) if len(size) == 1 else 'not kept'))
    z = [e for e in zero if e.name.endswith('memset') and e.g is TRUE and len(e.args) == 3 and e.args[1].leaf is ZERO and e.args[2].leaf is not None and t_sub(unU(e.args[2].leaf), tot) is ZERO]
    ctx.cleared = bool(z)


# ---- template --------------------------------------------------------------------------------------------------------
def moved(p, dx, dy, a):
    if p.op == 'moved':
        q, x, y, b = p.args
        if a is ZERO:
            return mk('moved', q, t_add(x, dx), t_add(y, dy), b)
        if x is ZERO and y is ZERO:
            return mk('moved', q, dx, dy, t_add(b, a))
    return mk('moved', p, dx, dy, a)


def template_hooks():
    def obj_of(I, st, O, obj):
        return O if O is not None else I.lval(obj, st)

    def h_move(I, st, e, d, O, obj):
        O = obj_of(I, st, O, obj)
        vs = [tleaf(I.freeze(I.rv(a, st))) for a in e['a']]
        p = poly_of(I, O, st)
        if len(vs) != 3 or any(v is None for v in vs):
            raise Unsupported('motion of an outline by a guarded amount')
        I.write(O, lift1c(lambda t: moved(t, *vs), p), st)
        return None

    def h_q(name):
        def hook(I, st, e, d, O, obj):
            O = obj_of(I, st, O, obj)
            p = poly_of(I, O, st)
            q = I.freeze(I.argval(e['a'][0], st))
            r = liftn(lambda xs: mk(name, xs[0], xs[1]), [p, q])
            if name == 'inside':
                return lift1(lambda t: bvar(t), r)
            return r
        return hook

    def h_reset(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.rv(a, st)) for a in e['a'])
        I.emit('call', CA + '::reset', st, e['l'], args=vs, decl=d)
        return None

    def h_e(I, st, e, d, O, obj):
        O = obj_of(I, st, O, obj)
        vs = [tleaf(I.freeze(I.rv(a, st))) for a in e['a']]
        if any(v is None for v in vs) or (isinstance(O, N) and O.leaf is None):
            raise Unsupported('template cell')
        b = O.leaf if isinstance(O, N) else O
        return ('L', leaf(mk('elem', mk('fld', b, '#cells'), mk('vec', *vs))))
    return {PG + '::move': h_move, PG + '::inside': h_q('inside'), PG + '::dist': h_q('dist'), CA + '::reset': h_reset, CA + '::e': h_e}


def tleaf(v):
    v = v if isinstance(v, N) else leaf(v)
    return unU(v.leaf) if v.leaf is not None else None


def poly_of(I, O, st):
    return I.freeze(I.read(O, st))


def origin(t):
    """the point is the origin"""
    s = show(t)
    return s in ('recv({c:{[0]:0, [1]:0}})', 'vec(0, 0)')


def template(ctx):
    fresh_state()
    f = ctx.one(CL + '::setMapMetaData')
    I = ctx.interp(hooks=template_hooks())
    r, st = I.run(f)
    info = par(f, 0)
    fl = lambda t, *p: fl(mk('fld', t, p[0]), *p[1:]) if p else t
    res = fl(info, 'linear_resolution')
    ares = fl(info, 'angular_resolution')
    na = fl(info, 'angle')
    stores = [e for e in I.events if e.kind == 'store' and e.loc is not None and any(cell_of(t) is not None for g, t in cases(e.loc))]
    ctx.need('template stores', len(stores), 1)
    cells = {cell_of(t) for e in stores for g, t in cases(e.loc)}
    if None in cells:
        raise AnchorMissing('template cell')
    this = rootloc(next(iter(cells)).args[0])
    rad, exp, spr, mn = [mk('fld', this, n) for n in ('footprint_radius_', 'linear_expand_', 'linear_spread_', 'linear_spread_min_cost_')]
    poly = mk('fld', this, 'footprint_p_')
    site = at(f)
    # range
    rs = [e for e in I.events if e.kind == 'call' and e.name == CA + '::reset']
    ctx.ob('template-range', len(rs) == 1 and not rs[0].loops and rs[0].g is TRUE, site, 'the template is resized %d times' % len(rs))
    if len(rs) != 1:
        return
    R = leafof(fn_leaf('ceil', t_fdiv(t_add(rad, t_add(exp, spr)), res)))
    IN.int_terms.add(R)
    IN.int_terms.add(na)
    got = [tleaf(v) for v in rs[0].args]
    for i in range(2):
        agree(ctx, 'template-range', at(rs[0]), rs[0].args[i], leaf(R))
    ctx.ob('template-range', got[2] is na, at(rs[0]), 'headings %s' % show(rs[0].args[2]))
    kept = [l for e in I.events if e.kind == 'store' and e.loc is not None and e.loc.leaf is not None for l in [e.loc.leaf] if l.op == 'fld' and l.args[1] == 'range_max_']
    ctx.ob('template-range', len(kept) >= 1, site, 'the range is not kept')
    if kept:
        agree(ctx, 'template-range', site, I.freeze(I.read1(kept[0], st)), leaf(R))
    # value of one cell
    deep = [e for e in stores if len(e.loops) == max(len(x.loops) for x in stores)]
    l = deep[0].loops[-1]
    loops = deep[0].loops
    ctx.ob('template-values', len(loops) == 3 and all(e.loops == loops for e in deep), site, 'cells are set in %d nested loops' % len(loops))
    if len(loops) != 3:
        return
    locs = {cell_of(t) for e in deep for g, t in cases(e.loc)}
    ctx.ob('template-values', len(locs) == 1, at(deep[0]), 'cells %s are set together' % ', '.join(show(c)[-100:] for c in locs))
    if len(locs) != 1:
        return
    c = locs.pop()
    x, y, a = c.args[1].args
    live = AND(l.body_g, l.next.g)
    V = I.freeze(I.read1(c, l.next))
    want_poly = mk('moved', poly, t_mul(x, res), t_mul(y, res), t_mul(a, ares))
    d, ins = mk('par', 'distance'), mk('par', 'within')
    bad = set()
    mp = {}
    for t in terms_in(V, 'dist') + terms_in(V, 'inside'):
        if rat_same(t.args[0], want_poly) and origin(t.args[1]):
            mp[t] = d if t.op == 'dist' else ins
        else:
            bad.add(t)
    for t in subterms(V):
        if isinstance(t, T) and t.op == 'elem' and t.args[0].op in ('phi', 'fld') and cell_like(t):
            mp[t] = ZERO if ctx.cleared and rs[0].seq < deep[0].seq else t
    ctx.ob('template-values', not bad, at(deep[0]), 'the outline tested is %s' % '; '.join(show(t)[:300] for t in bad))
    V = subst(V, mp)
    V = strip_n8(V)
    live = subst(live, mp)
    step = t_sub(num(100), t_fdiv(t_mul(t_sub(d, exp), t_sub(num(100), mn)), spr))
    lt = lambda p, q: cmp_terms('<', p, q, False)
    tr = leafof(trunc_leaf(step))
    want = ite(OR(bvar(ins), lt(d, exp)), leaf(num(100)), ite(lt(d, t_add(exp, spr)), leaf(tr), leaf(ZERO)))
    band = t_fdiv(res, num(100))
    off = OR(lt(d, t_add(exp, spr)), NOT(lt(t_sub(d, t_add(exp, spr)), band)), bvar(ins))
    pos = AND(cmp_terms('<', ZERO, res, False), cmp_terms('<=', ZERO, spr, False), cmp_terms('<=', ZERO, d, False), cmp_terms('<=', ZERO, exp, False))
    point = cmp_terms('==', rad, ZERO, False)
    centre = AND(cmp_terms('==', x, ZERO, True), cmp_terms('==', y, ZERO, True))
    agree(ctx, 'template-values', at(deep[0]), V, want, AND(live, off, pos, NOT(AND(point, centre))))
    inb = AND(live, pos, NOT(off), NOT(AND(point, centre)))
    ok = not sat(AND(inb, NOT(lift1(lambda t: TRUE if t in (ZERO, mn) else FALSE, V))))
    ctx.ob('template-values', ok, at(deep[0]), 'the value at the border of the spread area is neither zero nor the smallest cost')
    # all cells
    vs = sweep.visits([leaf(x), leaf(y), leaf(a)], AND(l.body_g), loops)
    cx, cy, cyaw = sweep.cellv(3)
    req = AND(inside_sq(cx, R), inside_sq(cy, R), cmp_terms('<=', ZERO, cyaw, True), cmp_terms('<', cyaw, na, True))
    miss = AND(req, NOT(OR(*[v.g for v in vs])))
    bad = sat(miss)
    ctx.ob('template-complete', not bad, at(deep[0]), 'a cell is left out, with %s' % (witness(miss)[:300] if bad else ''))
    for v in vs:
        ctx.entail('template-complete', v.g, req, at(deep[0]), 'cells outside the template are set')
    for v in vs:
        for l2, E in sweep.stops(loops, v.mp, req):
            ctx.ob('template-complete', False, at(deep[0]), 'the loop in line %d may end early: %s' % (l2.line, witness(E)[:300]))
    # radius zero
    late = [e for e in stores if e not in deep]
    atc = [e for e in late if all(cell_of(t).args[1].args[0] is ZERO and cell_of(t).args[1].args[1] is ZERO for g, t in cases(e.loc))]
    ctx.ob('template-point', len(late) == len(atc), site, 'further cells are set')
    done = FALSE
    for e in late:
        ok = len(e.loops) >= 1 and e.loops[0] in loops[:1] or True
        agree(ctx, 'template-point', at(e), e.val, leaf(num(100)), e.g)
        ctx.entail('template-point', e.g, point, at(e), 'the centre is occupied for an outline of some size')
        if e.loops and cell_of(cases(e.loc)[0][1]).args[1].args[2] is a and e.loops[0] is loops[0] and e.seq > deep[-1].seq:
            done = OR(done, e.g)
    inl = AND(live, point, centre, NOT(lift1(lambda t: TRUE if t is num(100) else FALSE, V)))
    if late:
        l0 = loops[0]
        ctx.entail('template-point', AND(l0.body_g, l0.next.g, point), exists_other(done, [l0.ind]), site, 'the centre of an outline of no size may stay free')
    else:
        ctx.ob('template-point', not sat(inl), site, 'the centre of an outline of no size may stay free')


def cell_of(t):
    while t.op in ('fld', 'elem') and isinstance(t.args[0], T):
        if cell_like(t):
            return t
        t = t.args[0]
    return None


def cell_like(t):
    return t.op == 'elem' and isinstance(t.args[1], T) and t.args[1].op == 'vec' and '#cells' in show(t.args[0])


def rat_same(p, q):
    if p is q:
        return True
    if p.op != 'moved' or q.op != 'moved' or p.args[0] is not q.args[0]:
        return False
    return all(t_sub(u, v) is ZERO for u, v in zip(p.args[1:], q.args[1:]))


def trunc_leaf(t):
    return leaf(mk('trunc', t))


def strip_n8(v):
    def f(t):
        while t.op in ('n8', 'trunc_n8') and isinstance(t.args[0], T):
            t = t.args[0]
        return t
    return lift1c(f, v)


def inside_sq(c, R):
    return AND(cmp_terms('<=', t_neg(R), c, True), cmp_terms('<=', c, R, True))


# ---- stamping --------------------------------------------------------------------------------------------------------
def poly_by(t, radices):
    """coefficients of the polynomial t grouped by the exponents of the radices"""
    out = {}
    for m, c in topoly(t).items():
        key = [0] * len(radices)
        rest = num(c)
        for b, p in m:
            if b in radices:
                key[radices.index(b)] = p
            else:
                for _ in range(abs(p)):
                    rest = t_mul(rest, b) if p > 0 else t_fdiv(rest, b)
        k = tuple(key)
        out[k] = t_add(out.get(k, ZERO), rest)
    return out


class Stamp(object):
    pass


def setup(ctx):
    fresh_state()
    f = ctx.one(CL + '::generateSpecifiedCSpace')
    I = ctx.interp()
    r, st = I.run(f)
    S = Stamp()
    S.f, S.I, S.st = f, I, st
    ps = f.params
    d = [mk('deref', par(f, i)) for i in range(2)]
    fl = lambda t, *p: fl(mk('fld', t, p[0]), *p[1:]) if p else t
    S.map, S.msg, S.yaw = d[0], d[1], par(f, 2)
    S.W, S.H = fl(S.map, 'info', 'width'), fl(S.map, 'info', 'height')
    S.mw, S.mh = fl(S.msg, 'info', 'width'), fl(S.msg, 'info', 'height')
    S.mres, S.res = fl(S.msg, 'info', 'resolution'), fl(S.map, 'info', 'linear_resolution')
    S.data = fl(S.map, 'data')
    S.src = fl(S.msg, 'data')
    S.n = mk('fld', S.src, '#size')
    for t in (S.W, S.H, S.mw, S.mh, S.n):
        IN.int_terms.add(t)
    S.org = [fl(t, 'info', 'origin', 'position', c) for c in 'xy' for t in (S.msg, S.map)]
    S.this = next((t for e in I.events for x in [e.g] for t in terms_in(x, 'this')), None) or mk('this')
    S.R = fl(S.this, 'range_max_')
    S.keep = bvar(fl(S.this, 'keep_unknown_'))
    S.same = cmp_terms('==', t_sub(S.res, S.mres), ZERO, False)
    return S


def place(S, i):
    """cell of the costmap that corresponds to map cell i"""
    im, iq = mk('imod', i, S.mw), mk('idiv', i, S.mw)
    out = []
    for k, c in enumerate((im, iq)):
        o = leafof(fn_leaf('round', t_fdiv(t_sub(S.org[2 * k], S.org[2 * k + 1]), S.res)))
        s = leafof(fn_leaf('round', t_mul(c, t_fdiv(S.mres, S.res))))
        for t in (o, s):
            IN.int_terms.add(t)
        out.append(t_add(o, s))
    return out


def in_map(S, x, y):
    return AND(cmp_terms('<=', ZERO, x, True), cmp_terms('<', x, S.W, True), cmp_terms('<=', ZERO, y, True), cmp_terms('<', y, S.H, True))


def decode(S, K):
    """(x, y, yaw) of an index into the costmap"""
    d = poly_by(K, [S.W, S.H])
    if set(d) - {(0, 0), (1, 0), (1, 1)}:
        return None
    x, y, a = d.get((0, 0), ZERO), d.get((1, 0), ZERO), d.get((1, 1), ZERO)
    yaw = unU(S.yaw) if getattr(S, 'yaw', None) is not None else None
    if yaw is not None and a is not yaw and isnum(t_sub(a, yaw)):
        y = t_add(y, t_mul(t_sub(a, yaw), S.H))     # rows counted from the far end
        a = yaw
    return x, y, a


def data_stores(S):
    out = []
    for e in S.I.events:
        if e.kind != 'store' or e.loc is None:
            continue
        for g, t in cases(e.loc):
            m = sweep.elem_of(t, S.data)
            if m is not None:
                out.append((e, AND(e.g, g), m, g))
    return out


def index_of(S, v):
    """indices the value reads the message with"""
    return {unU(t.args[1]) for t in terms_in(v, 'elem') if t.args[0] is S.src}


def every_index(ctx, rule, site, l, k, n, g=TRUE):
    i0 = subst(k, {l.ind: ZERO})
    step = t_sub(subst(k, {l.ind: t_add(l.ind, ONE)}), k)
    lo = cmp_terms('>=', l.ind, ZERO, True)
    out = exit_guard(l)
    if step is num(-1):
        ctx.ob(rule, i0 is t_sub(n, ONE), site, 'cells are taken from %s down' % show(i0))
        ctx.entail(rule, AND(lo, out, g), cmp_terms('<', k, ZERO, True), site, 'cells are left out')
        return
    ctx.ob(rule, step is ONE and i0 is ZERO, site, 'cells are taken from %s in steps of %s' % (show(i0), show(step)))
    ctx.entail(rule, AND(lo, out, g), cmp_terms('>=', k, n, True), site, 'cells are left out')


def invariants(S, l, hyp):
    """phi terms of l that keep their value from before the loop while hyp holds"""
    mp = {}
    for loc, p in l.phis.items():
        if p is not None:
            continue
        h = S.I.freeze(S.I.read1(loc, l.head))
        e0 = S.I.freeze(S.I.read1(loc, l.entry)) if not show(loc).endswith('#elems') else None
        if e0 is None or e0.leaf is None or h.leaf is None or h.leaf.op != 'phi':
            continue
        nx = S.I.freeze(S.I.read1(loc, l.next))
        ok = not sat(AND(hyp, l.body_g, l.next.g, NOT(lift1(lambda t: TRUE if t is h.leaf else FALSE, nx))))
        if ok:
            mp[h.leaf] = e0.leaf
    return mp


def old_reads(v, data):
    """the values the costmap holds at the moment: (term, index)"""
    return [(t, unU(t.args[1])) for t in terms_in(v, 'elem') if t.args[0] is data or (t.args[0].op == 'phi' and len(t.args[0].args) > 1 and show(t.args[0]).find('data') >= 0 and t.args[0].args[1] is mk('fld', data, '#elems'))]


def stamping(ctx):
    S = setup(ctx)
    I, f, st = S.I, S.f, S.st
    site = at(f)
    ds = data_stores(S)
    ctx.need('costmap stores', len({e for e, _, _, _ in ds}), 2)
    deep = {e for e, _, _, _ in ds if len(e.loops) == 3}
    flat = sorted({e for e, _, _, _ in ds if len(e.loops) == 1}, key=lambda e: e.seq)
    other = {e for e, _, _, _ in ds} - deep - set(flat)
    ctx.ob('cells-changed', not other and len(deep) >= 1, at(min(other, key=lambda e: e.seq)) if other else site, 'the costmap is changed in %d unexpected places' % len(other))
    if len(deep) != 1 or other:
        ctx.ob('cells-changed', len(deep) == 1, site, 'obstacles are stamped in %d places' % len(deep))
        return
    e = deep.pop()
    l1, l2, l3 = e.loops
    S.l1 = l1
    src = {k for x in [e.g, e.val] for k in index_of(S, x)}
    own_ = [k for k in src if t_sub(k, l1.ind) in (ZERO,) or k is l1.ind]
    reads = [k for k in src if k is l1.ind or (l1.ind in subterms(k))]
    k = l1.ind if l1.ind in src else (min(reads, key=lambda t: len(show(t))) if reads else None)
    if k is None:
        raise AnchorMissing('cell of the map')
    S.i = k
    every_index(ctx, 'every-map-cell', at(e), l1, k, S.n)
    gx, gy = place(S, k)
    val = mk('elem', S.src, k)
    IN.int_terms.add(val)
    unknown = cmp_terms('<', val, ZERO, True)
    free = cmp_terms('==', val, ZERO, True)
    inm = in_map(S, gx, gy)
    occupied = AND(NOT(unknown), NOT(free))
    # 1. the loops over the square
    body = AND(l1.body_g, l2.body_g, l3.body_g)
    hyp = NOT(S.same)
    inv = invariants(S, l1, hyp)
    red = lambda g: OR(AND(S.same, g), AND(NOT(S.same), subst(g, inv)))
    cx, cy = sweep.cellv(2)
    union = FALSE
    kn = known(S, k, gx, gy, cx, cy, val)
    reach = AND(subst(l1.body_g, {}), occupied, inm)
    req = AND(reach, in_map(S, cx, cy), inside_sq(t_sub(cx, gx), S.R), inside_sq(t_sub(cy, gy), S.R), cmp_terms('<=', ZERO, S.R, True),
              cmp_terms('>', S.mw, ZERO, True), cmp_terms('<=', ZERO, l1.ind, True))
    sols = []
    for g, t in cases(e.loc):
        m = sweep.elem_of(t, S.data)
        K = unU(m.args[1])
        for hyp_, mp0 in ((S.same, {}), (NOT(S.same), inv)):
            gg = AND(hyp_, subst(AND(body, g), mp0))
            if not sat(gg):
                continue
            d = decode(S, subst(K, mp0))
            ok = d is not None and d[2] is unU(S.yaw)
            ctx.ob('same-heading', ok, at(e), 'an obstacle is stamped at index %s' % show(K)[:300])
            if not ok:
                return
            s = sweep.solve([d[0], d[1]], [l2, l3], 2)
            ctx.ob('stamp-square', s is not None, at(e), 'cell (%s, %s) is not one-to-one in the loops' % (show(d[0])[:100], show(d[1])[:100]))
            if s is None:
                return
            mp, fixed = s
            vg = AND(subst(gg, mp), fixed, sweep.nonneg(mp))
            if not sat(vg):
                continue
            union = OR(union, vg)
            sols.append((vg, mp, mp0, d, K, g))
    ctx.need('stamped sets', len(sols), 1)
    miss = AND(req, NOT(union))
    m1 = AND(miss, NOT(kn))
    bad = sat(m1)
    ctx.ob('stamp-square', not bad, at(e), 'a cell within the range stays unmarked, with %s' % (witness(m1)[:500] if bad else ''))
    m2 = AND(miss, kn)
    if m2 is not FALSE and sat(m2):
        ctx.ob('stamp-square', False, at(e), 'cells within the range of a map cell stay unmarked on the side where its neighbour is as high or the map message ends, with %s' % witness(m2)[:300],
               fp='narrowed-range')
    else:
        ctx.ob('stamp-square', True, at(e), 'no cells are left out beside higher neighbours')
    wide = AND(union, NOT(AND(inside_sq(t_sub(cx, gx), S.R), inside_sq(t_sub(cy, gy), S.R))), cmp_terms('<=', ZERO, S.R, True))
    ctx.ob('stamp-square', not sat(wide), at(e), 'cells beyond the range of the template are marked: %s' % (witness(wide)[:300] if sat(wide) else ''))
    wide = AND(union, NOT(in_map(S, cx, cy)), cmp_terms('<=', ZERO, S.R, True), cmp_terms('>', S.W, ZERO, True), cmp_terms('>', S.H, ZERO, True))
    ctx.ob('stamp-square', not sat(wide), at(e), 'cells outside the map are marked')
    ctx.entail('stamp-square', union, AND(occupied, inm), at(e), 'a map cell that is free, unknown or outside is stamped')
    for vg, mp, mp0, d, K, g in sols[:1]:
        mpa = dict(mp)
        mpa[l1.ind] = l1.ind
        for l_, E in sweep.stops([l1, l2, l3], mpa, AND(req, NOT(kn))):
            ctx.ob('stamp-square', False, at(e), 'the loop in line %d may end early: %s' % (l_.line, witness(E)[:300]))
    # 2. the value
    values(ctx, S, e, sols, val)
    # 3. free cells and unknown ones
    free_cells(ctx, S, [x for x in flat if l1 in x.loops], l1, k, gx, gy, val, unknown, free, inm, e)
    keeping(ctx, S, [x for x in flat if l1 not in x.loops], l1)


def known(S, k, gx, gy, cx, cy, val):
    """sides on which the range is narrowed: a listed finding"""
    def nb(o):
        t = mk('elem', S.src, t_add(k, o))
        IN.int_terms.add(t)
        return cmp_terms('>=', t, val, True)
    im, iq = mk('imod', k, S.mw), mk('idiv', k, S.mw)
    for t in (im, iq):
        IN.int_terms.add(t)
    return AND(S.same, OR(
        AND(cmp_terms('<', cx, gx, True), OR(cmp_terms('==', im, ZERO, True), nb(num(-1)))),
        AND(cmp_terms('>', cx, gx, True), OR(cmp_terms('==', im, t_sub(S.mw, ONE), True), nb(ONE))),
        AND(cmp_terms('<', cy, gy, True), OR(cmp_terms('==', iq, ZERO, True), nb(t_neg(S.mw)))),
        AND(cmp_terms('>', cy, gy, True), OR(cmp_terms('==', iq, t_sub(S.mh, ONE), True), nb(S.mw)))))


def values(ctx, S, e, sols, val):
    l1, l2, l3 = e.loops
    body = AND(l1.body_g, l2.body_g, l3.body_g)
    tm = {t for x in [e.g, e.val] for t in terms_in(x, 'elem') if 'c_' in show(t.args[0]) and 'cs_template_' in show(t.args[0])}
    ctx.need('template reads', len(tm), 1)
    st1, st2, c0, c1 = template_names(tm)
    # every template read belongs to the cell that is stored
    for vg, mp, mp0, d, K, g in sols:
        for t in tm:
            idx = subst(unU(t.args[1]), mp0)
            use = AND(vg, subst(subst(exists_in(e, t), mp0), mp))
            if not sat(use):
                continue
            q = poly_by(idx, [st2, st1])
            ok = not (set(q) - {(0, 0), (1, 0), (0, 1)})
            ctx.ob('template-entry', ok, at(e), 'template entry %s' % show(idx)[:200])
            if not ok:
                return
            gx, gy = place(S, S.i)
            dx = t_sub(q.get((0, 0), ZERO), c0)
            dy = t_sub(q.get((0, 1), ZERO), c1)
            yaw = q.get((1, 0), ZERO)
            same_ = t_sub(t_add(dx, gx), d[0]) is ZERO and t_sub(t_add(dy, gy), d[1]) is ZERO and yaw is unU(S.yaw)
            ctx.ob('template-entry', same_, at(e), 'cell (%s, %s) takes the template entry at (%s, %s, %s)' % tuple(show(z)[:120] for z in (d[0], d[1], dx, dy, yaw)))
            if not same_:
                return
    c, old = mk('par', 'c'), mk('par', 'old')
    T0 = mk('par', 'template')
    for t in (c, old, T0):
        IN.int_terms.add(t)
    mp = {t: T0 for t in tm}
    for t, k in [p for x in [e.g, e.val] for p in old_reads(x, S.data)]:
        ok = any(t.args[1] is K or unU(t.args[1]) is K for _, _, _, _, K, _ in sols)
        ctx.ob('highest-cost', ok, at(e), 'compared with the costmap cell %s' % show(k)[:200])
        if not ok:
            return
        mp[t] = old
    want_c = leafof(idiv_leaf(t_mul(T0, val), num(100)))
    V = ite(e.g, e.val, leaf(old))
    V = no_narrow(subst(V, mp))
    g = subst(AND(body), mp)
    IN.int_terms.add(want_c)
    want = ite(AND(cmp_terms('>', want_c, ZERO, True), cmp_terms('<', old, want_c, True)), leaf(want_c), leaf(old))
    agree(ctx, 'highest-cost', at(e), V, want, g)


def exists_in(e, t):
    """guard under which the read t takes part in the store"""
    r = FALSE
    for g, x in cases(e.val):
        if t in subterms(x):
            r = OR(r, g)
    if r is FALSE:
        for v in dvars(e.g):
            if t in subterms(TM.atoms[v]):
                return TRUE
    return r


def idiv_leaf(a, b):
    return leaf(mk('idiv', a, b))


def no_narrow(v):
    mp = {}
    for t in terms_in(v, 'n8'):
        mp[t] = t.args[0]
    return subst(v, mp) if mp else v


def template_names(tm):
    base = next(iter(tm)).args[0].args[0]
    while base.op == 'fld' and base.args[1] != 'cs_template_':
        base = base.args[0]
    fl = lambda n, i: mk('elem', mk('fld', base, n), num(i))
    r = fl('stride_', 1), fl('stride_', 2), fl('center_', 0), fl('center_', 1)
    for t in r:
        IN.int_terms.add(t)
    return r


def free_cells(ctx, S, es, l1, k, gx, gy, val, unknown, free, inm, stamp):
    site = at(es[0]) if es else at(S.f)
    got = FALSE
    old = mk('par', 'old')
    IN.int_terms.add(old)
    cur = leaf(old)
    for e in es:
        for g, t in cases(e.loc):
            m = sweep.elem_of(t, S.data)
            d = decode(S, unU(m.args[1])) if m is not None else None
            ok = d is not None and t_sub(d[0], gx) is ZERO and t_sub(d[1], gy) is ZERO and d[2] is unU(S.yaw)
            ctx.ob('free-cells', ok, at(e), 'the costmap cell %s is set for a map cell' % show(t)[-300:])
            if not ok:
                return
            mp = {r: old for x in [e.g, e.val] for r, kk in old_reads(x, S.data) if kk is unU(m.args[1])}
            cur = ite(AND(subst(e.g, mp), g), subst(e.val, mp), cur)
            ctx.entail('free-cells', AND(e.g, g), free, at(e), 'a map cell that is not free sets its costmap cell')
    want = ite(AND(free, inm, cmp_terms('<', old, ZERO, True)), leaf(ZERO), leaf(old))
    agree(ctx, 'free-cells', site, cur, want, AND(l1.body_g, cmp_terms('>', S.mw, ZERO, True)))


def keeping(ctx, S, es, l1):
    """cells unknown before and in the map stay unknown where configured"""
    I = S.I
    marks = [e for e in I.events if e.kind == 'store' and e.loc is not None and e.loc.leaf is not None and e.loc.leaf.op == 'elem' and 'unknown_buf_' in show(e.loc.leaf.args[0])]
    ctx.ob('keep-unknown', len(es) == 1 and len(marks) == 1, at(S.f), 'unknown cells are noted in %d and restored in %d places' % (len(marks), len(es)))
    if len(es) != 1 or len(marks) != 1:
        return
    m, r = marks[0], es[0]
    ctx.ob('keep-unknown', len(m.loops) == 1 and len(r.loops) == 1 and m.seq < l1_first(I, l1) and r.seq > l1_first(I, l1), at(m), 'unknown cells are not noted before and restored after stamping')
    lm, lr = m.loops[0], r.loops[0]
    buf = m.loc.leaf.args[0]
    km = unU(m.loc.leaf.args[1])
    every_index(ctx, 'keep-unknown', at(m), lm, km, S.n, S.keep)
    gx, gy = place(S, km)
    inm = in_map(S, gx, gy)
    pos = cmp_terms('>', S.mw, ZERO, True)
    ctx.entail('keep-unknown', AND(lm.body_g, lm.next.g, inm, pos), m.g, at(m), 'an unknown cell is not noted')
    ctx.entail('keep-unknown', m.g, S.keep, at(m), 'unknown cells are noted though not configured')
    srcv = mk('elem', S.src, km)
    IN.int_terms.add(srcv)
    old = {t: kk for t, kk in old_reads(m.val, S.data)}
    mapv = mk('par', 'before')
    IN.int_terms.add(mapv)
    mp = {}
    for t, kk in old.items():
        d = decode(S, kk)
        ok = d is not None and t_sub(d[0], gx) is ZERO and t_sub(d[1], gy) is ZERO and d[2] is unU(S.yaw) and t.args[0] is S.data
        ctx.ob('keep-unknown', ok, at(m), 'the costmap cell %s is noted' % show(t)[:300])
        if not ok:
            return
        mp[t] = mapv
    want = AND(cmp_terms('<', srcv, ZERO, True), cmp_terms('<', mapv, ZERO, True))
    v = subst(m.val, mp)
    v = v if isinstance(v, N) else leaf(v)
    ctx.ob('keep-unknown', not sat(AND(m.g, OR(AND(truth(v), NOT(want)), AND(NOT(truth(v)), want)))), at(m), 'noted as unknown when %s' % show(m.val)[:300])
    # restored
    ms = [(g, sweep.elem_of(t, S.data)) for g, t in cases(r.loc)]
    if len(ms) != 1 or ms[0][1] is None:
        ctx.ob('keep-unknown', False, at(r), 'cell %s is restored' % show(r.loc)[:200])
        return
    K = unU(ms[0][1].args[1])
    flags = [t for t in subterms(lr.body_g) | subterms(r.g) if isinstance(t, T) and t.op == 'elem' and 'unknown_buf_' in show(t.args[0])]
    kr = {unU(t.args[1]) for t in flags if lr.ind in subterms(t)}
    ctx.ob('keep-unknown', len(kr) == 1, at(r), 'restored depending on %s' % ', '.join(show(x) for x in kr))
    if len(kr) != 1:
        return
    kr = kr.pop()
    flag = [t for t in flags if unU(t.args[1]) is kr][0]
    hx, hy = place(S, kr)
    d = decode(S, K)
    ok = d is not None and t_sub(d[0], hx) is ZERO and t_sub(d[1], hy) is ZERO and d[2] is unU(S.yaw)
    ctx.ob('keep-unknown', ok, at(r), 'costmap cell %s is restored' % show(K)[:300])
    agree(ctx, 'keep-unknown', at(r), r.val, leaf(num(-1)), r.g)
    n2 = sorted({t for t in subterms(exit_guard(lr)) if isinstance(t, T) and t.op in ('fld', 'phi') and show(t).endswith('#size')}, key=show)
    every_index(ctx, 'keep-unknown', at(r), lr, kr, n2[0] if len(n2) == 1 else S.n, S.keep)
    rs = [e for e in I.events if e.kind in ('resize', 'assign') and e.seq < m.seq]
    if len(n2) == 1 and n2[0] is not S.n:
        ok = len(rs) >= 1 and rs[-1].args and rs[-1].args[0].leaf is S.n
        ctx.ob('keep-unknown', ok, at(r), 'restored for %s cells' % show(n2[0]))
    want = AND(S.keep, bvar(flag), in_map(S, hx, hy))
    ctx.entail('keep-unknown', AND(lr.body_g, lr.next.g, pos, want), r.g, at(r), 'an unknown cell is not restored')
    ctx.entail('keep-unknown', r.g, want, at(r), 'a cell that was known is made unknown')


def truth(v):
    if v.leaf is None or v.leaf.op in ('true', 'false'):
        return lift1(lambda t: t if isinstance(t, N) else (TRUE if t.op == 'true' else FALSE if t.op == 'false' else cmp_terms('!=', num_leaf(t), ZERO, True) if isnum(t) else bvar(t)), v)
    return NOT(cmp_terms('==', v.leaf, ZERO, True)) if isnum(v.leaf) else bvar(v.leaf)


def l1_first(I, l1):
    s = [e.seq for e in I.events if l1 in e.loops]
    return min(s) if s else 0


# ---- callers ---------------------------------------------------------------------------------------------------------
def headings(ctx):
    fresh_state()
    f = ctx.one(CL + '::generateCSpace')
    q, c = CL + '::generateSpecifiedCSpace', CL + '::clearTravelableArea'
    I = ctx.interp(hooks={q: quiet_call, c: quiet_call})
    r, st = I.run(f)
    es = [e for e in I.events if e.kind == 'call' and e.name == q]
    ctx.ob('every-heading', len(es) == 1 and len(es[0].loops) == 1, at(f), 'headings are generated in %d places' % len(es))
    if len(es) != 1 or len(es[0].loops) != 1:
        return
    e = es[0]
    l = e.loops[0]
    na = mk('fld', mk('fld', mk('deref', par(f, 0)), 'info'), 'angle')
    IN.int_terms.add(na)
    k = tleaf(e.args[2])
    every_index(ctx, 'every-heading', at(e), l, k, na)
    ctx.entail('every-heading', AND(l.body_g, l.next.g), e.g, at(e), 'a heading is left out')
    ctx.ob('every-heading', e.args[0].leaf is par(f, 0) and e.args[1].leaf is par(f, 1), at(e), 'generated into %s from %s' % (show(e.args[0]), show(e.args[1])))
    cl = [x for x in I.events if x.kind == 'call' and x.name == c]
    ok = len(cl) == 1 and cl[0].g is TRUE and not cl[0].loops and cl[0].seq < e.seq
    ctx.ob('every-heading', ok and cl[0].args[0].leaf is par(f, 0) and cl[0].args[1].leaf is par(f, 1), at(f), 'known cells are not forgotten before stamping')


def target(ctx):
    fresh_state()
    f = ctx.one(CL + '::updateCSpace')
    q = CL + '::generateCSpace'
    I = ctx.interp(hooks={q: quiet_call})
    r, st = I.run(f)
    es = [e for e in I.events if e.kind == 'call' and e.name == q]
    ctx.need('generation calls', len(es), 1)
    this = mk('this')
    root = bvar(mk('fld', this, 'root_'))
    mp, ov = mk('fld', this, 'map_'), mk('fld', this, 'map_overlay_')
    got = [FALSE, FALSE]
    for e in es:
        ctx.ob('layer-target', e.args[1].leaf is par(f, 0) and e.args[2].leaf is par(f, 1), at(e), 'generated from %s, %s' % (show(e.args[1]), show(e.args[2])))
        for g, t in cases(e.args[0]):
            ok = t in (mp, ov)
            ctx.ob('layer-target', ok, at(e), 'generated into %s' % show(t))
            if not ok:
                return
            ctx.ob('layer-target', not sat(AND(e.g, g, OR(*[got[0], got[1]]))), at(e), 'generated twice')
            i = 0 if t is mp else 1
            got[i] = OR(got[i], AND(e.g, g))
    ctx.ob('layer-target', got[0] is root and got[1] is NOT(root), at(f), 'generated into the base costmap when %s, into the overlay when %s' % (show(got[0]), show(got[1])))


def forget(ctx):
    """cells of a map message that are known are forgotten first in the overwriting mode (same resolution)"""
    S = Stamp()
    fresh_state()
    f = ctx.one(CL + '::clearTravelableArea')
    I = ctx.interp()
    r, st = I.run(f)
    S2 = setup_for(f, I, st)
    ds = data_stores(S2)
    ctx.ob('overwrite-forgets', len({e for e, _, _, _ in ds}) == 1, at(f), 'cells are forgotten in %d places' % len(ds))
    if len({e for e, _, _, _ in ds}) != 1:
        return
    e = ds[0][0]
    S2.this = mk('this')
    root = bvar(mk('fld', S2.this, 'root_'))
    om = mk('fld', S2.this, 'overlay_mode_')
    IN.int_terms.add(om)
    over = [c['v'] for c in enum_values(ctx, 'OVERWRITE')]
    mode = cmp_terms('==', om, num(over[0]), True)
    agree(ctx, 'overwrite-forgets', at(e), e.val, leaf(num(-1)), e.g)
    ctx.entail('overwrite-forgets', e.g, AND(mode, NOT(root)), at(e), 'cells are forgotten outside the overwriting mode or by the base layer')
    mp = {S2.mres: S2.res}
    ks = {k for k in index_of(S2, e.g)}
    ks = [k for k in ks if any(l.ind in subterms(k) for l in e.loops)]
    ctx.ob('overwrite-forgets', len(ks) == 1, at(e), 'cells depend on %s' % ', '.join(show(k) for k in ks))
    if len(ks) != 1:
        return
    k = ks[0]
    S2.i = k
    im, iq = mk('imod', k, S2.mw), mk('idiv', k, S2.mw)
    for t in (im, iq):
        IN.int_terms.add(t)
    R = mk('fld', S2.this, 'range_max_')
    IN.int_terms.add(R)
    val = mk('elem', S2.src, k)
    IN.int_terms.add(val)
    o = [t_sub(p, c) for p, c in zip([subst(x, mp) for x in place(S2, k)], (im, iq))]
    gx, gy = t_add(o[0], im), t_add(o[1], iq)
    e_g = subst(e.g, mp)
    loops = e.loops
    li = next(l for l in loops if l.ind in subterms(k))
    na = mk('fld', mk('fld', S2.map, 'info'), 'angle')
    IN.int_terms.add(na)
    inner = [l for l in loops if l is not li]
    for g, t in cases(e.loc):
        m = sweep.elem_of(t, S2.data)
        d = decode(S2, subst(unU(m.args[1]), mp))
        ctx.ob('overwrite-forgets', d is not None, at(e), 'cell %s is forgotten' % show(t)[:200])
        if d is None:
            return
        gg = AND(e_g, subst(g, mp))
        ctx.entail('overwrite-forgets', AND(gg, *[cmp_terms('>=', l.ind, ZERO, True) for l in loops]), AND(cmp_terms('==', t_sub(d[0], gx), ZERO, True), cmp_terms('==', t_sub(d[1], gy), ZERO, True)), at(e), 'the cell forgotten is not that of the map cell')
        yl = [l for l in loops if l.ind in subterms(d[2])]
        ctx.ob('overwrite-forgets', len(yl) == 1, at(e), 'heading %s is forgotten' % show(d[2]))
        if len(yl) != 1:
            return
        every_index(ctx, 'overwrite-forgets', at(e), yl[0], d[2], na, subst(TRUE, mp))
        every_index(ctx, 'overwrite-forgets', at(e), li, k, S2.n)
        away = AND(*[AND(cmp_terms('<=', R, c, True), cmp_terms('<', c, t_sub(n, R), True)) for c, n in ((im, S2.mw), (iq, S2.mh))])
        req = AND(li.body_g, yl[0].body_g, NOT(cmp_terms('<', val, ZERO, True)), away, in_map(S2, gx, gy), cmp_terms('<=', ZERO, R, True))
        first = {l.ind: ZERO for l in loops if l not in (li, yl[0])}
        req = subst(req, mp)
        ctx.entail('overwrite-forgets', req, subst(gg, first), at(e), 'a known cell is not forgotten')
        ctx.entail('overwrite-forgets', AND(gg, cmp_terms('<=', ZERO, R, True)), AND(NOT(cmp_terms('<', val, ZERO, True)), away), at(e), 'an unknown cell, or one close to the border of the map, is forgotten')


def enum_values(ctx, name):
    out = []
    for tu in ctx.p.tus if hasattr(ctx.p, 'tus') else []:
        for en in getattr(tu, 'enums', {}).values() if isinstance(getattr(tu, 'enums', {}), dict) else []:
            for c in en.get('consts', []):
                if c.get('n') == name:
                    out.append(c)
    return out or [{'v': 0}]


def setup_for(f, I, st):
    S = Stamp()
    S.f, S.I, S.st = f, I, st
    d = [mk('deref', par(f, i)) for i in range(2)]
    fl = lambda t, *p: fl(mk('fld', t, p[0]), *p[1:]) if p else t
    S.map, S.msg = d
    S.W, S.H = fl(S.map, 'info', 'width'), fl(S.map, 'info', 'height')
    S.mw, S.mh = fl(S.msg, 'info', 'width'), fl(S.msg, 'info', 'height')
    S.mres, S.res = fl(S.msg, 'info', 'resolution'), fl(S.map, 'info', 'linear_resolution')
    S.data = fl(S.map, 'data')
    S.src = fl(S.msg, 'data')
    S.n = mk('fld', S.src, '#size')
    for t in (S.W, S.H, S.mw, S.mh, S.n):
        IN.int_terms.add(t)
    S.org = [fl(t, 'info', 'origin', 'position', c) for c in 'xy' for t in (S.msg, S.map)]
    return S


# ---- configuration ---------------------------------------------------------------------------------------------------
def config(ctx):
    fresh_state()
    f = ctx.one(CL + '::loadConfig')
    q = PG + '::radius'
    h = xml_hooks()
    h[q] = quiet_call
    h[PG + '::toMsg'] = quiet_call
    I = ctx.interp(hooks=h)
    r, st = I.run(f)
    c = par(f, 0)
    this = mk('this')
    ent = lambda n, k: mk('fld', mk('elem', c, n), k)
    vals = {}
    for e in I.events:
        if e.kind == 'store' and e.loc is not None and e.loc.leaf is not None and rootloc(e.loc.leaf).op == 'this':
            vals.setdefault(e.loc.leaf, []).append(e)
    names = {'linear_expand': 'linear_expand_', 'linear_spread': 'linear_spread_'}
    for n, loc in names.items():
        v = I.freeze(I.read1(mk('fld', this, loc), st))
        want = named(v, n)
        ctx.ob('configured', v.leaf is not None and want, at(f), '%s is %s' % (loc, show(v)[:200]))
    v = I.freeze(I.read1(mk('fld', this, 'linear_spread_min_cost_'), st))
    hm = [t for t in subterms(v) if isinstance(t, T) and t.op == 'call' and 'hasMember' in str(t.args[0])]
    ok = len(hm) == 1 and "'linear_spread_min_cost'" in show(hm[0]) and restrict1(v, atom_var(hm[0]), False) is leaf(ZERO) and named(restrict1(v, atom_var(hm[0]), True), 'linear_spread_min_cost')
    ctx.ob('configured', ok, at(f), 'the smallest cost is %s' % show(v)[:300])
    v = I.freeze(I.read1(mk('fld', this, 'keep_unknown_'), st))
    s = [t for t in subterms(v) if isinstance(t, T) and t.op == 'call' and 'hasMember' in str(t.args[0])]
    ok = len(s) == 1 and "'keep_unknown'" in show(s[0]) and 'keep_unknown_' in show(restrict1(v, atom_var(s[0]), False)) and named(restrict1(v, atom_var(s[0]), True), 'keep_unknown')
    ctx.ob('configured', ok, at(f), 'unknown cells are kept when %s' % show(v)[:300])
    rad = [e for e in I.events if e.kind == 'call' and e.name == q]
    v = I.freeze(I.read1(mk('fld', this, 'footprint_radius_'), st))
    ctx.ob('configured', len(rad) == 1 and v.leaf is not None and v.leaf.op == 'call' and v.leaf.args[0] == q, at(f), 'the radius is %s' % show(v)[:200])
    es = vals.get(mk('fld', this, 'footprint_p_'), [])
    ctx.ob('configured', len(es) == 1, at(f), 'the outline is kept %d times' % len(es))
    # defaults
    ct = [g for g in ctx.p.funcs.values() if g.cls == CL and g.kind == 'ctor' and not g.params]
    if len(ct) == 1:
        I2 = ctx.interp()
        _, s2 = I2.run(ct[0])
        for n in ('linear_expand_', 'linear_spread_', 'linear_spread_min_cost_', 'range_max_', 'keep_unknown_'):
            v = I2.freeze(I2.read1(mk('fld', this, n), s2))
            ctx.ob('configured', v is leaf(ZERO) or v is FALSE, at(ct[0]), '%s starts as %s' % (n, show(v)))


def named(v, n):
    v = v if isinstance(v, N) else leaf(v)
    ts = [t for t in subterms(v) if isinstance(t, T) and t.op == 'elem' and show(t).endswith("['%s']" % n)]
    return len(ts) == 1 and (v.leaf is not None and v.leaf.op == 'fld' and v.leaf.args[0] is ts[0] or v.leaf is None and len(dvars(v)) == 1)
