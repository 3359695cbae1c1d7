"""Chain of costmap layers: regions, hand-over between layers, base map, overlays and published updates."""
from core import *
from numlib import *
from rosmodel import quiet_call
from c01 import exit_guard
from c02 import every_index, poly_by, tleaf, fresh_state, strip_n8
import sweep
UNITS = ['costmap_cspace/src/costmap_3d.cpp']
EXPLANATION = ('Operations on regions are compared field by field (or as sets of cells) with the smallest enclosing box, the part inside the map and the copy of exactly these cells. '
               'The update step of a layer, the reception of base and overlay maps and the generation of update messages are then summarised over these operations, and values, order and conditions of every step are compared with the chain rule.')
ASSUMPTIONS = ['extents of boxes are not negative', 'layer maps of one chain have one size', 'no integer overflow']
NS = 'costmap_cspace::'
UR = NS + 'UpdatedRegion'
BASE = NS + 'Costmap3dLayerBase'
MSG = NS + 'CSpace3DMsg'
FIELDS = ('x_', 'y_', 'yaw_', 'width_', 'height_', 'angle_', 'stamp_')


def check(ctx):
    ctx.part(merge)
    ctx.part(normalize)
    ctx.part(blit)
    ctx.part(cells)
    ctx.part(chain)
    ctx.part(base_map)
    ctx.part(base_chain)
    ctx.part(overlay)
    ctx.part(link)
    ctx.part(unknown)
    ctx.part(stop)
    ctx.part(outputs)
    ctx.part(update)
    ctx.part(node)


def fl(t, *p):
    return fl(mk('fld', t, p[0]), *p[1:]) if p else t


def ints(*ts):
    for t in ts:
        IN.int_terms.add(t)


def method(ctx, cls, name):
    fs = [f for f in ctx.p.funcs.values() if f.cls == cls and f.name == name]
    if not fs:
        raise AnchorMissing('%s::%s' % (cls, name))
    return fs[0]


def this_of(I, cls=None):
    return mk('this')


# ---- regions ---------------------------------------------------------------------------------------------------------
def empty(t):
    z = [cmp_terms('==', fl(t, n), ZERO, True) for n in ('width_', 'height_', 'angle_')]
    return OR(*z)


def later(a, b):
    return mk('call', 'ros::TimeBase::operator>', a, b)


def time_order(v, a, b):
    """comparisons of the two stamps as one atom"""
    mp = {}
    gt, lt_ = bvar(mk('par', 'later')), None
    for x in dvars(v):
        t = TM.atoms[x]
        if t.op == 'call' and 'operator' in str(t.args[0]) and len(t.args) == 3:
            op = str(t.args[0]).split('operator')[-1]
            u, w = [unU(z) if isinstance(z, T) else z for z in t.args[1:]]
            if {u, w} != {a, b}:
                continue
            fwd = u is a
            # equal stamps make no difference
            mp[t] = {'>': fwd, '>=': fwd, '<': not fwd, '<=': not fwd}.get(op)
    for t, s in mp.items():
        if s is None:
            continue
        hi, lo = restrict1(v, atom_var(t), True), restrict1(v, atom_var(t), False)
        v = ite(gt, hi, lo) if s else ite(gt, lo, hi)
    return v, gt


def struct_field(I, st, loc, n):
    return I.freeze(I.read1(mk('fld', loc, n), st))


def merge(ctx):
    fresh_state()
    f = ctx.one(UR + '::merge')
    I = ctx.interp()
    r, st = I.run(f)
    s, o = mk('this'), par(f, 0)
    ints(*[fl(x, n) for x in (s, o) for n in FIELDS[:6]])
    site = at(f)
    V = {n: struct_field(I, st, s, n) for n in FIELDS}
    nn = AND(*[cmp_terms('<=', ZERO, fl(x, n), True) for x in (s, o) for n in ('width_', 'height_', 'angle_')])
    es, eo = empty(s), empty(o)
    both = AND(nn, NOT(es), NOT(eo))
    for p, w in (('x_', 'width_'), ('y_', 'height_'), ('yaw_', 'angle_')):
        for n in (p, w):
            agree(ctx, 'region-union', site, V[n], leaf(fl(s, n)), AND(nn, eo, NOT(es)), 'with an empty region')
            agree(ctx, 'region-union', site, V[n], leaf(fl(o, n)), AND(nn, NOT(eo), es), 'of an empty region')
        lo = ite(cmp_terms('<', fl(o, p), fl(s, p), True), leaf(fl(o, p)), leaf(fl(s, p)))
        ea, eb = t_add(fl(s, p), fl(s, w)), t_add(fl(o, p), fl(o, w))
        hi = ite(cmp_terms('<', ea, eb, True), leaf(eb), leaf(ea))
        agree(ctx, 'region-union', site, V[p], lo, both)
        agree(ctx, 'region-union', site, lift2c(t_add, V[p], V[w]), hi, both)
    # empty with empty stays empty
    still = lift1(lambda t: TRUE, V['width_'])
    both_e = AND(nn, es, eo)
    z = OR(*[cmpv('==', V[n], numv(0), True) for n in ('width_', 'height_', 'angle_')])
    ctx.entail('region-union', both_e, z, site, 'the union of empty regions is not empty')
    v, gt = time_order(V['stamp_'], fl(o, 'stamp_'), fl(s, 'stamp_'))
    same_t = lambda g, want, what: ctx.entail('region-stamp', g, lift2(lambda a, b: TRUE if a is b else FALSE, v, want), site, what)
    same_t(AND(nn, NOT(es), eo), leaf(fl(s, 'stamp_')), 'an empty region changes the time of the region')
    same_t(both, ite(gt, leaf(fl(o, 'stamp_')), leaf(fl(s, 'stamp_'))), 'the later time is not kept')
    same_t(AND(nn, es, NOT(eo)), leaf(fl(o, 'stamp_')), 'the time of the first region is not taken over')


def normalize(ctx):
    fresh_state()
    f = ctx.one(UR + '::normalize')
    I = ctx.interp()
    r, st = I.run(f)
    s = mk('this')
    W, H = par(f, 0), par(f, 1)
    ints(W, H, *[fl(s, n) for n in FIELDS[:6]])
    V = {n: struct_field(I, st, s, n) for n in FIELDS}
    site = at(f)
    c = mk('par', 'cell')
    ints(c)
    for p, w, F in (('x_', 'width_', W), ('y_', 'height_', H)):
        a, b = fl(s, p), fl(s, w)
        nn = AND(cmp_terms('<=', ZERO, b, True), cmp_terms('<=', ZERO, F, True), cmp_terms('<=', ZERO, fl(s, 'width_'), True), cmp_terms('<=', ZERO, fl(s, 'height_'), True))
        C = leaf(c)
        end = lift2c(t_add, V[p], V[w])
        got = AND(cmpv('<=', V[p], C, True), cmpv('<', C, end, True))
        want = AND(cmp_terms('<=', a, c, True), cmp_terms('<', c, t_add(a, b), True), cmp_terms('<=', ZERO, c, True), cmp_terms('<', c, F, True))
        ctx.entail('region-clip', AND(nn, got), want, site, 'cells outside the map or the region remain')
        ctx.entail('region-clip', AND(nn, want), got, site, 'cells of the region inside the map are dropped')
        ctx.entail('region-clip', nn, cmpv('<=', numv(0), V[w], True), site, 'the extent may become negative')
        ctx.entail('region-clip', nn, cmpv('<=', numv(0), V[p], True), site, 'the first cell may be outside')
    for n in ('yaw_', 'angle_', 'stamp_'):
        ctx.ob('region-clip', V[n].leaf is fl(s, n), site, '%s changes to %s' % (n, show(V[n])[:200]))


def region_hooks(I0=None):
    def obj_of(I, st, O, obj):
        return O if O is not None else I.lval(obj, st)

    def whole(I, v):
        """a region as a term"""
        v = I.freeze(v)
        return lift1c(canon_region, v)

    def h_merge(I, st, e, d, O, obj):
        O = obj_of(I, st, O, obj)
        A, B = whole(I, I.read(O, st)), whole(I, I.argval(e['a'][0], st))
        I.write(O, liftn(union, [A, B]), st)
        return None

    def h_norm(I, st, e, d, O, obj):
        O = obj_of(I, st, O, obj)
        A = whole(I, I.read(O, st))
        xs = [I.freeze(I.rv(a, st)) for a in e['a']]
        I.write(O, liftn(clip, [A] + xs), st)
        return None

    def h_blt(I, st, e, d, O, obj):
        O = obj_of(I, st, O, obj)
        A = whole(I, I.read(O, st))
        xs = [I.freeze(I.argval(a, st)) for a in e['a']]
        I.emit('call', UR + '::bitblt', st, e['l'], args=(A,) + tuple(xs), decl=d)
        src = [lift1c(lambda t: mk('deref', t), xs[1])]
        ext = [lift1c(lambda t, n=n: fl(t, 'info', n), src[0]) for n in ('width', 'height')]
        I.write(O, liftn(clip, [A] + ext), st)
        return None
    return {UR + '::merge': h_merge, UR + '::normalize': h_norm, UR + '::bitblt': h_blt}


def union(xs):
    out = set()
    for t in xs:
        out |= set(t.args) if t.op == 'union' else {t}
    out.discard(mk('nothing'))
    out = sorted(out, key=lambda t: t.id)
    if not out:
        return mk('nothing')
    return out[0] if len(out) == 1 else mk('union', *out)


def clip(xs):
    t, w, h = xs
    w, h = unU(w), unU(h)
    if t.op == 'nothing':
        return t
    if t.op == 'clip' and t.args[1] is w and t.args[2] is h:
        return t
    return mk('clip', t, w, h)


def canon_region(t):
    """terms of regions given by their fields"""
    if t.op == 'recv':
        v = t.args[0].val
        ks = getattr(v, 'kids', None)
        if ks:
            xs = {}
            for n, x in ks.items():
                if isinstance(x, N) and x.leaf is not None:
                    xs[n] = unU(x.leaf)
            if all(n in xs for n in FIELDS[:6]):
                if any(xs[n] is ZERO for n in ('width_', 'height_', 'angle_')):
                    return mk('nothing')
                return mk('box', *[xs.get(n, mk('notime')) for n in FIELDS])
    return t


def regval(I, v):
    return lift1c(canon_region, I.freeze(v))


def same_region(ctx, rule, where, I, got, want, g=TRUE, what=''):
    ok = not sat(AND(g, NOT(lift1(lambda t: TRUE if t is want else FALSE, regval(I, got) if not isinstance(got, N) else lift1c(canon_region, got)))))
    return ctx.ob(rule, ok, where, '%s: %s instead of %s' % (what, show(got)[:300], show(want)[:300]))


# ---- copy of a region ------------------------------------------------------------------------------------------------
def blit(ctx):
    fresh_state()
    f = ctx.one(UR + '::bitblt')
    hk = region_hooks()
    I = ctx.interp(hooks={UR + '::normalize': hk[UR + '::normalize']})
    r, st = I.run(f)
    site = at(f)
    dst, src = [mk('deref', par(f, i)) for i in range(2)]
    s = mk('this')
    W, H, A = [fl(src, 'info', n) for n in ('width', 'height', 'angle')]
    mpd = {fl(dst, 'info', n): fl(src, 'info', n) for n in ('width', 'height', 'angle')}
    raw = {n: fl(s, n) for n in FIELDS[:6]}
    cl = [mk('clip', s, w, h) for w, h in ((W, H), (mpd and fl(dst, 'info', 'width'), fl(dst, 'info', 'height')))]
    q = {n: mk('par', 'clip_' + n) for n in FIELDS[:6]}
    mp = dict(mpd)
    for c in cl:
        for n in FIELDS[:6]:
            mp[fl(c, n)] = q[n]
    mp[fl(s, 'yaw_')] = q['yaw_']
    mp[fl(s, 'angle_')] = q['angle_']
    ints(W, H, A, *q.values())
    inv = AND(*[cmp_terms('<=', ZERO, q[n], True) for n in FIELDS[:6]] +
              [cmp_terms('<=', t_add(q['x_'], q['width_']), W, True), cmp_terms('<=', t_add(q['y_'], q['height_']), H, True)])
    pos = AND(cmp_terms('<=', ONE, W, True), cmp_terms('<=', ONE, H, True), cmp_terms('<=', ONE, A, True))
    cps = [e for e in I.events if e.kind == 'call' and e.name in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove')]
    one = [e for e in I.events if e.kind == 'store' and e.loc is not None and any(sweep.elem_of(t, fl(dst, 'data')) is not None for g, t in cases(e.loc))]
    other = [e for e in I.events if e.kind == 'call' and e.name in ('std::copy', 'std::copy_n')]
    if other:
        raise AnchorMissing('copy by %s' % other[0].name)
    ctx.need('copies', len(cps) + len(one), 1)
    cx, cy, ca = sweep.cellv(3)
    want = AND(inv, pos, inside(cx, q['x_'], q['width_']), inside(cy, q['y_'], q['height_']), inside(ca, q['yaw_'], q['angle_']), cmp_terms('<', ca, A, True), cmp_terms('<=', ZERO, ca, True))
    got = FALSE
    for e in cps:
        d, sc, n = e.args
        g = subst(AND(e.g, *[l.body_g for l in e.loops]), mp)
        for gd, td in cases(d):
            for gs, ts in cases(sc):
                gg = AND(g, gd, gs)
                if not sat(AND(inv, pos, gg)):
                    continue
                ok = td.op == 'addr' and ts.op == 'addr'
                ed, es = [t.args[0] if t.op == 'addr' else t for t in (td, ts)]
                ok = ed.op == 'elem' and es.op == 'elem' and ed.args[0] is fl(dst, 'data') and es.args[0] is fl(src, 'data')
                ctx.ob('region-copy', ok, at(e), 'copies from %s to %s' % (show(ts)[:150], show(td)[:150]))
                if not ok:
                    return
                kd, ks = [subst(unU(closed(I, e.loops, t.args[1])), mp) for t in (ed, es)]
                ln = subst(n, mp)
                for gn, tn in cases(ln):
                    g3 = AND(gg, gn, inv, pos)
                    if not sat(g3):
                        continue
                    tn = unU(tn)
                    ctx.ob('region-copy', t_sub(kd, ks) is ZERO, at(e), 'cell %s goes to cell %s' % (show(ks)[:200], show(kd)[:200]))
                    dd = poly_by(kd, [W, H])
                    if set(dd) - {(0, 0), (1, 0), (1, 1)}:
                        ctx.ob('region-copy', False, at(e), 'copies to %s' % show(kd)[:200])
                        return
                    x0, y, a = dd.get((0, 0), ZERO), dd.get((1, 0), ZERO), dd.get((1, 1), ZERO)
                    got = OR(got, row(ctx, e, g3, x0, y, a, tn, cx, cy, ca))
    for e in one:
        g = subst(AND(e.g, *[l.body_g for l in e.loops]), mp)
        for gl, t in cases(e.loc):
            m = sweep.elem_of(t, fl(dst, 'data'))
            if m is None:
                continue
            k = subst(unU(closed(I, e.loops, m.args[1])), mp)
            for gv, v in cases(e.val):
                ks = v.args[1] if v.op == 'elem' and v.args[0] is fl(src, 'data') else None
                ok = ks is not None and t_sub(subst(unU(closed(I, e.loops, ks)), mp), k) is ZERO
                ctx.ob('region-copy', ok, at(e), 'cell %s receives %s' % (show(k)[:200], show(v)[:200]))
            dd = poly_by(k, [W, H])
            x0, y, a = dd.get((0, 0), ZERO), dd.get((1, 0), ZERO), dd.get((1, 1), ZERO)
            for v in sweep.visits([leaf(x0), leaf(y), leaf(a)], AND(g, gl, inv, pos), e.loops):
                got = OR(got, v.g)
    miss = AND(want, NOT(got))
    ctx.ob('region-copy', not sat(miss), site, 'a cell of the region is not copied: %s' % (witness(miss)[:300] if sat(miss) else ''))
    ext = AND(got, inv, pos, NOT(want))
    ctx.ob('region-copy', not sat(ext), site, 'a cell outside the region is copied: %s' % (witness(ext)[:300] if sat(ext) else ''))
    for e in cps + one:
        for l in e.loops:
            if any(x is not None and sat(AND(inv, pos, subst(AND(l.body_g, x.g), mp))) for x in l.exits[1:]):
                ctx.ob('region-copy', False, at(e), 'the loop in line %d may end early' % l.line)


def inside(c, p, n):
    return AND(cmp_terms('<=', p, c, True), cmp_terms('<', c, t_add(p, n), True))


def closed(I, loops, t):
    """index terms with loop-carried pointers in closed form"""
    for l in reversed(loops):
        mp = {}
        for loc, p in l.phis.items():
            h = I.freeze(I.read1(loc, l.head))
            if h.leaf is None:
                continue
            ph = h.leaf
            base = ph.args[1] if ph.op == 'elem' else (ph.args[0].args[1] if ph.op == 'addr' and ph.args[0].op == 'elem' else ph)
            base = unU(base) if isinstance(base, T) else base
            if base.op != 'phi' or base not in subterms(t):
                continue
            e0 = I.freeze(I.read1(loc, l.entry))
            nx = I.freeze(I.read1(loc, l.next))
            if e0.leaf is None or nx.leaf is None:
                continue
            i0, i1 = [index_in(v.leaf) for v in (e0, nx)]
            if i0 is None or i1 is None:
                continue
            step = t_sub(i1, base)
            if base in subterms(step) or l.ind in subterms(step):
                continue
            mp[base] = t_add(i0, t_mul(step, l.ind))
        if mp:
            t = subst(t, mp)
    return t


def index_in(t):
    if t.op == 'addr':
        t = t.args[0]
    if t.op == 'elem':
        return unU(t.args[1])
    return None


def row(ctx, e, g, x0, y, a, n, cx, cy, ca):
    """cells of a copied row: guard on (cx, cy, ca)"""
    s = sweep.solve([y, a], e.loops, 2)
    if s is None:
        # one copy for several rows
        raise AnchorMissing('rows of the copied region')
    mp, fixed = s
    out = AND(subst(g, mp), fixed, sweep.nonneg(mp))
    vy, va = sweep.cellv(2)
    mp2 = {vy: cy, va: ca}
    x0 = subst(x0, mp)
    n = subst(n, mp)
    tmp = {vy: mk('par', '#y'), va: mk('par', '#a')}
    ints(*tmp.values())
    back = {tmp[vy]: cy, tmp[va]: ca}
    out, x0, n = [subst(subst(v, tmp), back) for v in (out, x0, n)]
    return AND(out, inside(cx, x0, n))


# ---- cells of messages -----------------------------------------------------------------------------------------------
def cells(ctx):
    fresh_state()
    f = ctx.one(MSG + '::address')
    I = ctx.interp()
    r, st = I.run(f)
    s = mk('this')
    x, y, a = [unU(par(f, i)) for i in range(3)]
    W, H = fl(s, 'info', 'width'), fl(s, 'info', 'height')
    want = lambda x, y, a: t_add(t_mul(t_add(t_mul(a, H), y), W), x)
    agree(ctx, 'cell-layout', at(f), r if isinstance(r, N) else I.freeze(r), leaf(want(x, y, a)))
    gs = [g for g in ctx.p.funcs.values() if g.cls == MSG and g.name == 'getCost']
    ctx.need('cell access', len(gs), 1)
    for g in gs:
        I = ctx.interp()
        r, st = I.run(g)
        r = r if isinstance(r, T) else I.freeze(r).leaf
        while r is not None and r.op in ('deref', 'addr'):
            r = r.args[0]
        x, y, a = [par(g, i) for i in range(3)]
        ok = r is not None and r.op == 'elem' and r.args[0] is fl(s, 'data') and t_sub(unU(r.args[1]), want(x, y, a)) is ZERO
        ctx.ob('cell-layout', ok, at(g), 'the access yields %s' % (show(r)[:200] if r is not None else None))
    gs = [g for g in ctx.p.funcs.values() if g.cls == MSG and g.name == 'copyCells']
    ctx.need('cell copies', len(gs), 1)
    for g in gs:
        I = ctx.interp()
        r, st = I.run(g)
        cp = [e for e in I.events if e.kind == 'call' and e.name.endswith('memcpy')]
        ctx.ob('cell-layout', len(cp) == 1 and cp[0].g is TRUE, at(g), '%d copies' % len(cp))
        if len(cp) != 1:
            continue
        p = [par(g, i) for i in range(len(g.params))]
        up = 'Update' in g.param_types[0] if hasattr(g, 'param_types') else None
        for k, (o, b) in enumerate(((p[0], 1), (p[4], 5))):
            tt = cp[0].args[k].leaf
            el = tt.args[0] if tt is not None and tt.op == 'addr' else tt
            ok = el is not None and el.op == 'elem' and el.args[0] is fl(o, 'data')
            if ok:
                got = unU(el.args[1])
                w1 = t_add(t_mul(t_add(t_mul(p[b + 2], fl(o, 'info', 'height')), p[b + 1]), fl(o, 'info', 'width')), p[b])
                w2 = t_add(t_mul(t_add(t_mul(p[b + 2], fl(o, 'height')), p[b + 1]), fl(o, 'width')), p[b])
                ok = t_sub(got, w1) is ZERO or (k == 0 and t_sub(got, w2) is ZERO)
            ctx.ob('cell-layout', ok, at(g), 'copies at %s' % (show(tt)[:200] if tt is not None else None))
        agree(ctx, 'cell-layout', at(g), cp[0].args[2], leaf(unU(p[8])))


# ---- chain -----------------------------------------------------------------------------------------------------------
def quiet(name):
    def hook(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st) if obj is not None else None
        quiet_call(I, st, e, d, O, obj)
        I.events[-1].obj = w
        return leaf(mk('par', name))
    return hook


def chain_hooks(ctx, names=('setMapMetaData', 'updateCSpace', 'setBaseMapChain', 'updateChainEntry', 'updateChain')):
    hk = dict(region_hooks())
    for c in {BASE} | {f.cls for f in ctx.p.funcs.values() if f.name in ('updateChain', 'updateCSpace') and f.cls}:
        for n in names:
            hk[c + '::' + n] = quiet('#' + n)
    return hk


def chain(ctx):
    fresh_state()
    f = ctx.one(BASE + '::updateChainEntry')
    hk = chain_hooks(ctx)
    s = mk('this')
    left = mk('par', 'region left by the layer')

    def h_up(I, st, e, d, O, obj):
        regs.append(I.freeze(I.read1(fl(s, 'region_'), st)))
        v = I.freeze(I.rv(e['a'][0], st))
        I.emit('call', 'updateChain', st, e['l'], args=(v,), decl=d)
        I.write(leaf(fl(s, 'region_')), leaf(left), st)
        return bvar(mk('par', 'consumed'))
    regs = []
    for k in list(hk):
        if k.endswith('::updateChain'):
            hk[k] = h_up
    entry = hk[BASE + '::updateChainEntry']

    def h_entry(I, st, e, d, O, obj):
        vs = [I.freeze(I.argval(a, st)) for a in e['a']]
        I.emit('call', 'updateChainEntry', st, e['l'], args=tuple(vs), decl=d)
        I.events[-1].obj = O if O is not None else I.lval(obj, st)
        return bvar(mk('par', 'later'))
    hk[BASE + '::updateChainEntry'] = h_entry
    I = ctx.interp(hooks=hk)
    r, st = I.run(f)
    site = at(f)
    mapp, over, upd, child = [fl(s, n) for n in ('map_', 'map_overlay_', 'map_updated_', 'child_')]
    W, H = [fl(mk('deref', mapp), 'info', n) for n in ('width', 'height')]
    given = par(f, 0)
    now = clip([union([fl(s, 'region_'), given]), W, H])
    prev = fl(s, 'region_prev_')
    both = union([now, prev])
    cc = [e for e in I.events if e.kind == 'call']
    bl = [e for e in cc if e.name == UR + '::bitblt']
    dr = [e for e in cc if e.name.endswith('::updateCSpace')]
    up = [e for e in cc if e.name == 'updateChain']
    nx = [e for e in cc if e.name == 'updateChainEntry']
    ok = len(bl) == 1 and len(dr) >= 1 and len(up) == 1 and len(nx) >= 1 and not bl[0].loops
    ctx.ob('take-over', ok, site, '%d copies, %d drawings, %d steps, %d following layers' % (len(bl), len(dr), len(up), len(nx)))
    if not ok:
        return
    b = bl[0]
    ctx.ob('take-over', b.g is TRUE, at(b), 'the cells of the map below are taken over only if %s' % show(b.g)[:200])
    # clipping of the copied region happens in the copy
    got = lift1c(lambda t: t.args[0] if t.op == 'clip' and t.args[1] is W and t.args[2] is H and t.args[0].op == 'union' and now in t.args[0].args else t, b.args[0])
    want = {both, clip([both, W, H])}
    ctx.ob('take-over', all(t in want for t in leaves(b.args[0])), at(b), 'the region taken over is %s' % show(b.args[0])[:400])
    ctx.ob('take-over', b.args[1].leaf is over and b.args[2].leaf is mapp, at(b), 'cells are copied from %s to %s' % (show(b.args[2])[:100], show(b.args[1])[:100]))
    dg = FALSE
    for d in dr:
        ctx.ob('draw-overlay', d.args[0].leaf is upd, at(d), 'draws %s' % show(d.args[0])[:100])
        same_region(ctx, 'draw-overlay', at(d), I, d.args[1], now, d.g, 'region')
        ctx.ob('draw-overlay', b.seq < d.seq < up[0].seq, at(d), 'the overlay is not drawn between the copy and the step of the layer')
        dg = OR(dg, d.g)
    fid = [fl(mk('deref', x), 'header', 'frame_id') for x in (mapp, upd)]
    eq = OR(bvar(mk('eq', *fid)), bvar(mk('eq', *reversed(fid))))
    eqs = [TM.atoms[v] for v in dvars(dg) if TM.atoms[v].op == 'eq' and set(TM.atoms[v].args[:2]) == set(fid)]
    want = AND(bvar(upd), bvar(eqs[0]) if eqs else eq)
    ctx.ob('draw-overlay', len(eqs) == 1 and not sat(XOR(dg, want)), at(dr[0]), 'an overlay is drawn if %s' % show(dg)[:300])
    u = up[0]
    ctx.ob('layer-step', u.g is TRUE and not u.loops, at(u), 'the step is taken only if %s' % show(u.g)[:200])
    out0 = bvar(par(f, 1))
    ctx.ob('layer-step', not sat(XOR(tobool(u.args[0]), out0)), at(u), 'the output is requested if %s' % show(u.args[0])[:200])
    same_region(ctx, 'layer-step', at(u), I, regs[-1], now, TRUE, 'region of the layer')
    pv = I.freeze(I.read1(prev, st))
    same_region(ctx, 'remember-region', site, I, pv, now, TRUE, 'remembered region')
    ng = FALSE
    for e in nx:
        ng = OR(ng, e.g)
        o = e.obj if isinstance(e.obj, T) else (e.obj.leaf if isinstance(e.obj, N) else None)
        ctx.ob('hand-on', o in (mk('deref', child), child), at(e), 'hands on to %s' % (show(o) if o is not None else None))
        ctx.ob('hand-on', e.seq > u.seq, at(e), 'the next layer is updated before the own step')
        ts = set(leaves(e.args[0]))
        full = all(t in (left,) or (t.op == 'union' and left in t.args) for t in ts)
        ctx.ob('hand-on', full, at(e), 'the region handed on is %s' % show(e.args[0])[:300])
        cov = all(t.op == 'union' and prev in t.args for t in ts)
        ctx.ob('hand-on', cov, at(e), 'cells taken over because of the previous region are not part of the region handed on, so layers and outputs further up keep the previous cells',
               fp='previous-region')
        wo = AND(out0, NOT(bvar(mk('par', 'consumed'))))
        ctx.ob('hand-on', not sat(AND(e.g, XOR(tobool(e.args[1]), wo))), at(e), 'the output is requested if %s' % show(e.args[1])[:200])
    ctx.ob('hand-on', not sat(XOR(ng, bvar(child))), site, 'the next layer is updated if %s' % show(ng)[:200])


def loc_of(o):
    return o.leaf if isinstance(o, N) else o


def tobool(v):
    if isinstance(v, T):
        return bvar(v)
    return lift1(lambda t: t if isinstance(t, N) else (TRUE if t in (ONE, mk('true')) else FALSE if t in (ZERO, mk('false')) else bvar(t)), v)


def XOR(a, b):
    return OR(AND(a, NOT(b)), AND(NOT(a), b))


# ---- base map --------------------------------------------------------------------------------------------------------
def base_map(ctx):
    fresh_state()
    f = ctx.one(BASE + '::setBaseMap')
    s = mk('this')
    mapl = mk('deref', fl(s, 'map_'))
    data = fl(mapl, 'data')
    over = mk('deref', fl(s, 'map_overlay_'))
    hk = chain_hooks(ctx)
    seen = []
    for k in list(hk):
        if k.endswith('::setMapMetaData'):
            def h_meta(I, st, e, d, O, obj):
                I.emit('call', 'setMapMetaData', st, e['l'], args=(I.freeze(I.argval(e['a'][0], st)),), decl=d)
                return None
            hk[k] = h_meta
    drawn = mk('par', 'drawn')
    I = ctx.interp(hooks=hk)
    r, st = I.run(f)
    site = at(f)
    msg = mk('deref', par(f, 0))
    info = fl(msg, 'info')
    W, H, A = fl(info, 'width'), fl(info, 'height'), fl(s, 'ang_grid_')
    ints(W, H, A)
    IN.unsigned_terms.add(W)
    IN.unsigned_terms.add(H)
    pos = AND(cmp_terms('<=', ONE, A, True), cmp_terms('<=', ZERO, W, True), cmp_terms('<=', ZERO, H, True))
    fin = st
    want = {('info', 'width'): W, ('info', 'height'): H, ('info', 'angle'): A, ('info', 'linear_resolution'): fl(info, 'resolution'),
            ('info', 'origin'): fl(info, 'origin'), ('header',): fl(msg, 'header')}
    for p, w in want.items():
        g = I.freeze(I.read1(fl(mapl, *p), st))
        g = lift1c(unU, g)
        ctx.ob('base-info', all(t is w for t in leaves(g)), site, '%s of the map is %s' % (p[-1], show(g)[:200]))
    g = I.freeze(I.read1(fl(mapl, 'info', 'angular_resolution'), st))
    agree(ctx, 'base-info', site, g, leaf(t_fdiv(num(2 * PI), A)))
    rs = [e for e in I.events if e.kind == 'resize']
    ok = [e for e in rs if e.g is TRUE and not e.loops and e.args[0].leaf is not None and t_sub(unU(e.args[0].leaf), t_mul(t_mul(W, H), A)) is ZERO and (e.obj is None or e.obj is data or True)]
    asg = [e for e in I.events if e.kind == 'assign' and e.g is TRUE and not e.loops and loc_of(e.obj) is data and len(e.args) == 2 and e.args[0].leaf is not None and
           t_sub(unU(e.args[0].leaf), t_mul(t_mul(W, H), A)) is ZERO and e.args[1].leaf is num(-1)]
    ctx.ob('base-info', len(ok) + len(asg) >= 1, site, 'the map is resized to %s' % '; '.join(show(e.args[0])[:100] for e in rs))
    cc = [e for e in I.events if e.kind == 'call']
    meta = [e for e in cc if e.name == 'setMapMetaData']
    dr = [e for e in cc if e.name.endswith('::updateCSpace')]
    ch = [e for e in cc if e.name.endswith('::setBaseMapChain')]
    en = [e for e in cc if e.name.endswith('::updateChainEntry')]
    okn = len(meta) == 1 and len(dr) == 1 and len(en) == 1 and len(ch) == 1
    ctx.ob('base-steps', okn, site, '%d preparations, %d drawings, %d layers initialised, %d updates' % (len(meta), len(dr), len(ch), len(en)))
    if not okn:
        return
    m, d, c, e = meta[0], dr[0], ch[0], en[0]
    nf = lambda x: lift1c(unU, I.freeze(I.getfld(m.args[0], x)))
    okm = nf('width').leaf is W and nf('height').leaf is H and nf('angle').leaf is A
    ctx.ob('base-steps', okm and m.seq < d.seq, at(m), 'the layer is prepared for %s' % show(m.args[0])[:200])
    ctx.ob('base-steps', d.args[0].leaf is par(f, 0), at(d), 'the map drawn is %s' % show(d.args[0])[:100])
    full = {n: v for n, v in zip(FIELDS, (ZERO, ZERO, ZERO, W, H, A, fl(msg, 'header', 'stamp')))}
    for x, a in ((d, d.args[1]), (e, e.args[0])):
        for n, w in full.items():
            v = lift1c(unU, I.freeze(I.getfld(a, n)))
            ctx.ob('base-steps', all(t is w for t in leaves(v)), at(x), '%s of the region is %s' % (n, show(v)[:200]))
    sts = sweep.stores(I, data)
    sts = [(ev, g, t, mm, gl) for ev, g, t, mm, gl in sts]
    fresh = mk('par', 'iteration')

    def fill(rule, group, cond, what):
        """every cell of every heading satisfying cond (over the index within a heading) is set to -1"""
        cx, cy = sweep.cellv(2)
        got = FALSE
        flat = FALSE
        size = mk('fld', data, '#size')
        total = t_mul(t_mul(W, H), A)
        for ev, g, t, mm, gl in group:
            k = subst(unU(mm.args[1]), {size: total})
            rest, q = topoly_split(k, t_mul(W, H)) or (k, ZERO)
            gg = subst(drop_exits(AND(g, pos, *[l.body_g for l in ev.loops]), ev.loops), {size: total})
            used = [l for l in ev.loops if l.ind in subterms(k)]
            gg = exists_other(gg, [l.ind for l in used])
            if q is ZERO:
                for v in sweep.visits([leaf(k)], gg, used):
                    flat = OR(flat, v.g)
            else:
                for v in sweep.visits([leaf(rest), leaf(q)], gg, used):
                    got = OR(got, v.g)
            for gv, tv in cases(ev.val):
                ctx.ob(rule, tv is num(-1), at(ev), 'cells are set to %s' % show(tv)[:100])
        if not group:
            ctx.ob(rule, False, site, what)
            return FALSE, cx
        if flat is not FALSE:
            # one index over all headings
            r1 = AND(pos, cmp_terms('<=', ZERO, cx, True), cmp_terms('<', cx, total, True))
            ok = not sat(AND(r1, NOT(flat))) and cond(cx) is TRUE
            if ok:
                return r1, cx
            if got is FALSE:
                ctx.ob(rule, False, at(group[0][0]), '%s: %s' % (what, witness(AND(r1, NOT(flat)))[:200] if sat(AND(r1, NOT(flat))) else 'the condition is taken from another cell'))
                return flat, cx
        req = AND(pos, cmp_terms('<=', ZERO, cx, True), cmp_terms('<', cx, t_mul(W, H), True), cmp_terms('<=', ZERO, cy, True), cmp_terms('<', cy, A, True))
        miss = AND(req, cond(cx), NOT(got))
        ctx.ob(rule, not sat(miss), at(group[0][0]), '%s: %s' % (what, witness(miss)[:200] if sat(miss) else ''))
        return AND(got, req), cx
    pre = [x for x in sts if x[0].seq < d.seq and x[0].loops]
    if not (asg and asg[0].seq < d.seq):
        fill('base-unknown', pre, lambda c: TRUE, 'cells are not initialised as unknown')
    post = [x for x in sts if x[0].seq > d.seq and x[0].seq < c.seq and x[0].loops]
    unk = lambda c: cmp_terms('<', mk('elem', fl(msg, 'data'), c), ZERO, True)
    if post:
        src = {unU(t.args[1]) for ev, *_ in post for t in terms_in(ev.g, 'elem') if t.args[0] is fl(msg, 'data')}
        for t in src:
            ints(mk('elem', fl(msg, 'data'), t))
    cx0 = sweep.cellv(2)[0]
    ints(mk('elem', fl(msg, 'data'), cx0))
    got, cx = fill('base-unknown', post, unk, 'cells unknown in the map do not stay unknown')
    ctx.ob('base-unknown', not sat(AND(got, NOT(unk(cx)))), site, 'known cells become unknown')
    cov = [x for x in I.events if x.kind == 'store' and x.loc is not None and x.loc.leaf is over]
    last = max([x[0].seq for x in post] + [d.seq])
    okc = len(cov) == 1 and cov[0].seq > last and cov[0].seq < c.seq and not [x for x in sts if x[0].seq > cov[0].seq]
    ctx.ob('base-steps', okc, site, 'the overlay does not start as a copy of the finished base map')
    ctx.ob('base-steps', copied(I, cov, st, mapl, over, W), site, 'the overlay starts as %s' % (show(I.freeze(cov[0].val))[:200] if cov and cov[0].val is not None else None))
    reach = drop_all(c.g)
    ctx.ob('base-steps', not sat(AND(pos, XOR(reach, bvar(fl(s, 'child_'))))) and c.seq < e.seq, at(c), 'layers above are initialised if %s' % show(reach)[:200])
    ctx.ob('base-steps', not sat(AND(pos, NOT(drop_all(e.g)))), at(e), 'the layers are updated if %s' % show(e.g)[:200])
    if len(e.args) > 1:
        ctx.ob('base-steps', not sat(NOT(tobool(e.args[1]))), at(e), 'no output is requested')


def copied(I, cov, st, mapl, over, W):
    if not cov:
        return False
    g = I.freeze(I.read1(fl(over, 'info', 'width'), st))
    return all(unU(t) is W or t is fl(mapl, 'info', 'width') for t in leaves(g))


def drop_exits(g, loops):
    """g without the conditions on which earlier loops ended"""
    keep = [l.ind for l in loops]
    return exists_other(g, keep)


def drop_all(g):
    return exists_other(g, [])


def topoly_split(k, unit):
    """k = rest + unit * q"""
    um = list(topoly(unit).items())
    if len(um) != 1:
        return None
    (mu, cu) = um[0]
    fa = dict(mu)
    q, rest = ZERO, ZERO
    for m, c in topoly(k).items():
        dm = dict(m)
        t = num(c)
        if all(dm.get(a, 0) >= p for a, p in fa.items()):
            for a, p in fa.items():
                dm[a] -= p
            tgt = 'q'
        else:
            tgt = 'r'
        for a, p in dm.items():
            for _ in range(abs(p)):
                t = t_mul(t, a) if p > 0 else t_fdiv(t, a)
        if tgt == 'q':
            q = t_add(q, t)
        else:
            rest = t_add(rest, t)
    return rest, q


def base_chain(ctx):
    fresh_state()
    f = ctx.one(BASE + '::setBaseMapChain')
    s = mk('this')
    hk = chain_hooks(ctx)
    I = ctx.interp(hooks=hk)
    r, st = I.run(f)
    site = at(f)
    mapl, over, child = mk('deref', fl(s, 'map_')), mk('deref', fl(s, 'map_overlay_')), fl(s, 'child_')
    cc = [e for e in I.events if e.kind == 'call']
    m = [e for e in cc if e.name.endswith('setMapMetaData') and e.g is TRUE]
    ctx.ob('init-layer', len(m) == 1 and m[0].args[0].leaf is fl(mapl, 'info'), site, 'the layer is not prepared for the size of its map')
    c = [e for e in I.events if e.kind == 'store' and e.loc is not None and e.loc.leaf is over and e.g is TRUE]
    ctx.ob('init-layer', len(c) == 1 and isinstance(c[0].val, N) and c[0].val.leaf is mapl, site, 'the overlay does not start as a copy of the map below')
    n = [e for e in cc if e.name.endswith('setBaseMapChain')]
    g = OR(*[e.g for e in n])
    ctx.ob('init-layer', len(n) >= 1 and not sat(XOR(g, bvar(child))) and (not c or all(e.seq > c[0].seq for e in n)), site, 'the next layer is initialised if %s' % show(g)[:200])
    for e in n:
        o = e.obj if isinstance(e.obj, T) else (e.obj.leaf if isinstance(e.obj, N) else None)
        ctx.ob('init-layer', o in (mk('deref', child), child), at(e), 'initialises %s' % (show(o) if o is not None else None))


# ---- overlay ---------------------------------------------------------------------------------------------------------
def overlay(ctx):
    fresh_state()
    f = ctx.one(BASE + '::processMapOverlay')
    s = mk('this')
    I = ctx.interp(hooks=chain_hooks(ctx))
    r, st = I.run(f)
    site = at(f)
    mapl, msg = mk('deref', fl(s, 'map_')), mk('deref', par(f, 0))
    res = fl(mapl, 'info', 'linear_resolution')
    rnd = lambda t: leafof(fn_leaf('round', t))
    org = lambda t, c: fl(t, 'info', 'origin', 'position', c)
    want = {'x_': rnd(t_fdiv(t_sub(org(msg, 'x'), org(mapl, 'x')), res)), 'y_': rnd(t_fdiv(t_sub(org(msg, 'y'), org(mapl, 'y')), res)), 'yaw_': ZERO,
            'width_': rnd(t_fdiv(t_mul(fl(msg, 'info', 'width'), fl(msg, 'info', 'resolution')), res)),
            'height_': rnd(t_fdiv(t_mul(fl(msg, 'info', 'height'), fl(msg, 'info', 'resolution')), res)),
            'angle_': fl(mapl, 'info', 'angle'), 'stamp_': fl(msg, 'header', 'stamp')}
    en = [e for e in I.events if e.kind == 'call' and e.name.endswith('::updateChainEntry')]
    ctx.ob('overlay-region', len(en) >= 1, site, 'the layers are not updated')
    g = OR(*[e.g for e in en])
    ctx.ob('overlay-region', not sat(XOR(g, bvar(par(f, 1)))), site, 'the layers are updated if %s' % show(g)[:200])
    mu = I.freeze(I.read1(fl(s, 'map_updated_'), st))
    ctx.ob('overlay-region', mu.leaf is par(f, 0), site, 'the overlay map kept is %s' % show(mu)[:100])
    for n, w in want.items():
        v = I.freeze(I.read1(fl(s, 'region_', n), st))
        vs = [('kept region', v, site)] + [('region', I.freeze(I.getfld(e.args[0], n)), at(e)) for e in en]
        for what, v, where in vs:
            v = lift1c(unU, v)
            if n == 'stamp_':
                ctx.ob('overlay-region', all(t is w for t in leaves(v)), where, '%s of the %s is %s' % (n, what, show(v)[:200]))
            else:
                agree(ctx, 'overlay-region', where, v, leaf(w), TRUE, '%s of the %s' % (n, what))
    for e in en:
        sx = [x for x in I.events if x.kind == 'store' and x.loc is not None and x.loc.leaf in (fl(s, 'map_updated_'), fl(s, 'region_')) and x.seq > e.seq]
        ctx.ob('overlay-region', not sx, at(e), 'the layers are updated before the overlay map is kept')
        if len(e.args) > 1:
            ctx.ob('overlay-region', not sat(NOT(tobool(e.args[1]))), at(e), 'no output is requested')


def link(ctx):
    fresh_state()
    f = ctx.one(BASE + '::setChild')
    s, c = mk('this'), par(f, 0)
    I = ctx.interp()
    r, st = I.run(f)
    site = at(f)
    own = lambda v, w: all(t is w for t in leaves(v))
    ch = I.freeze(I.read1(fl(s, 'child_'), st))
    ctx.ob('link', own(ch, c), site, 'the child is %s' % show(ch)[:100])
    mp = I.freeze(I.read1(fl(mk('deref', c), 'map_'), st))
    ctx.ob('link', own(mp, fl(s, 'map_overlay_')), site, 'the child works on %s' % show(mp)[:100])
    rt = I.freeze(I.read1(fl(mk('deref', c), 'root_'), st))
    ctx.ob('link', not sat(tobool(rt)), site, 'the child remains a root')
    for g in sorted((g for g in ctx.p.funcs.values() if g.name == 'addLayer' and g.cls == NS + 'Costmap3d'), key=lambda g: g.line):
        I = ctx.interp(hooks={BASE + '::setChild': quiet('#setChild'), BASE + '::setAngleResolution': quiet('#ang'), BASE + '::setOverlayMode': quiet('#mode')})
        r, st = I.run(g)
        cs = [e for e in I.events if e.kind == 'call' and e.name.endswith('::setChild')]
        an = [e for e in I.events if e.kind == 'call' and e.name.endswith('::setAngleResolution')]
        mo = [e for e in I.events if e.kind == 'call' and e.name.endswith('::setOverlayMode')]
        pu = [e for e in I.events if e.kind == 'push']
        layer = None
        if r is not None:
            rv = I.freeze(r)
            layer = rv.leaf
        vec = fl(s, 'costmaps_')
        ok = len(cs) == 1 and len(an) == 1 and len(mo) == 1 and len(pu) == 1
        ctx.ob('link', ok, at(g), '%d links, %d resolutions, %d modes, %d entries' % (len(cs), len(an), len(mo), len(pu)))
        if not ok:
            continue
        ctx.ob('link', all(e.g is TRUE for e in cs + an + mo + pu), at(g), 'a layer is not always linked')
        ctx.ob('link', an[0].args[0].leaf is fl(s, 'ang_resolution_'), at(an[0]), 'the angular resolution is %s' % show(an[0].args[0])[:100])
        k = len(g.params) - 1
        ctx.ob('link', mo[0].args[0].leaf is par(g, k), at(mo[0]), 'the overlay mode is %s' % show(mo[0].args[0])[:100])
        o = cs[0].obj
        o = o if isinstance(o, T) else o.leaf
        last = t_sub(fl(vec, '#size'), ONE)
        while o is not None and o.op in ('deref',):
            o = o.args[0]
        ok = o is not None and o.op == 'elem' and o.args[0] is vec and t_sub(unU(o.args[1]), last) is ZERO
        ctx.ob('link', ok, at(cs[0]), 'the layer is linked to %s' % (show(o)[:200] if o is not None else None))
        if layer is not None:
            ctx.ob('link', cs[0].args[0].leaf is layer and pu[0].obj is not None and cs[0].seq < pu[0].seq, at(cs[0]), 'linked layer %s' % show(cs[0].args[0])[:100])


# ---- layers ----------------------------------------------------------------------------------------------------------
def unknown(ctx):
    fresh_state()
    f = method(ctx, NS + 'Costmap3dLayerUnknownHandle', 'updateChain')
    I = ctx.interp()
    r, st = I.run(f)
    site = at(f)
    s = mk('this')
    mapl, over = mk('deref', fl(s, 'map_')), mk('deref', fl(s, 'map_overlay_'))
    data = fl(over, 'data')
    reg = fl(s, 'region_')
    mpd = {fl(over, 'info', n): fl(mapl, 'info', n) for n in ('width', 'height', 'angle')}
    W, H, A = [fl(mapl, 'info', n) for n in ('width', 'height', 'angle')]
    ints(W, H, A, *[fl(reg, n) for n in FIELDS[:6]])
    inv = AND(*[cmp_terms('<=', ZERO, fl(reg, n), True) for n in FIELDS[:6]] +
              [cmp_terms('<=', t_add(fl(reg, 'x_'), fl(reg, 'width_')), W, True), cmp_terms('<=', t_add(fl(reg, 'y_'), fl(reg, 'height_')), H, True),
               cmp_terms('<=', ONE, W, True), cmp_terms('<=', ONE, H, True), cmp_terms('<=', ONE, A, True)])
    ss = sweep.stores(I, data)
    ctx.ob('unknown-cells', len(ss) >= 1, site, 'no cell is changed')
    cx, cy, ca = sweep.cellv(3)
    got = FALSE
    cell = mk('par', 'cell value')
    ints(cell)
    for e, g, t, m, gl in ss:
        k = subst(unU(m.args[1]), mpd)
        dd = poly_by(k, [W, H])
        if set(dd) - {(0, 0), (1, 0), (1, 1)}:
            ctx.ob('unknown-cells', False, at(e), 'changes cell %s' % show(k)[:200])
            continue
        key = [leaf(dd.get(z, ZERO)) for z in ((0, 0), (1, 0), (1, 1))]
        gg = AND(g, *[l.body_g for l in e.loops])
        rd = {x: cell for x in terms_in(gg, 'elem') + terms_in(e.val, 'elem') if t_sub(subst(unU(x.args[1]), mpd), k) is ZERO and show(x.args[0]).find('map_overlay_') >= 0}
        gg = subst(subst(gg, rd), mpd)
        for gv, tv in cases(subst(e.val, rd)):
            if not sat(AND(gg, gv)):
                continue
            ok = tv is fl(s, 'unknown_cost_')
            keep = tv is cell
            ctx.ob('unknown-cells', ok or keep, at(e), 'a cell becomes %s' % show(tv)[:100])
            if keep:
                continue
            for v in sweep.visits(key, AND(inv, gg, gv), e.loops):
                got = OR(got, v.g)
    box = AND(inv, inside(cx, fl(reg, 'x_'), fl(reg, 'width_')), inside(cy, fl(reg, 'y_'), fl(reg, 'height_')), inside(ca, fl(reg, 'yaw_'), fl(reg, 'angle_')), cmp_terms('<', ca, A, True))
    want = AND(box, cmp_terms('<', cell, ZERO, True))
    miss, ext = AND(want, NOT(got)), AND(got, NOT(want))
    ctx.ob('unknown-cells', not sat(miss), site, 'an unknown cell of the region is kept: %s' % (witness(miss)[:300] if sat(miss) else ''))
    ctx.ob('unknown-cells', not sat(ext), site, 'a known cell or a cell outside the region changes: %s' % (witness(ext)[:300] if sat(ext) else ''))
    for e, g, t, m, gl in ss[:1]:
        for l in e.loops:
            if any(x is not None and sat(AND(inv, subst(AND(l.body_g, x.g), mpd))) for x in l.exits[1:]):
                ctx.ob('unknown-cells', False, at(e), 'the loop in line %d may end early' % l.line)
    ctx.ob('unknown-cells', r is not None and not sat(tobool(I.freeze(r))), site, 'the layer consumes the output')


def stop(ctx):
    fresh_state()
    f = method(ctx, NS + 'Costmap3dLayerStopPropagation', 'updateChain')
    I = ctx.interp()
    r, st = I.run(f)
    site = at(f)
    s = mk('this')
    mapl, over = mk('deref', fl(s, 'map_')), mk('deref', fl(s, 'map_overlay_'))
    reg = fl(s, 'region_')
    for n, w in zip(FIELDS[:6], (ZERO, ZERO, ZERO, fl(mapl, 'info', 'width'), fl(mapl, 'info', 'height'), fl(mapl, 'info', 'angle'))):
        v = lift1c(unU, I.freeze(I.read1(fl(reg, n), st)))
        ctx.ob('stop-layer', all(t is w for t in leaves(v)), site, '%s of the region is %s' % (n, show(v)[:100]))
    ss = sweep.stores(I, fl(over, 'data'))
    fills = [e for e in I.events if e.kind == 'call' and e.name in ('std::fill', 'std::fill_n')]
    if not ss and fills:
        e = fills[0]
        a = [show(x) for x in e.args]
        ok = e.g is TRUE and e.args[-1].leaf is num(-1)
        ctx.ob('stop-layer', ok, at(e), 'fills with %s' % a[-1])
    else:
        ctx.ob('stop-layer', len(ss) == 1 and len(ss[0][0].loops) == 1, site, 'cells are cleared in %d places' % len(ss))
        for e, g, t, m, gl in ss:
            k = unU(m.args[1])
            for gv, tv in cases(e.val):
                ctx.ob('stop-layer', tv is num(-1), at(e), 'cells become %s' % show(tv)[:100])
            if len(e.loops) == 1:
                n = mk('fld', fl(over, 'data'), '#size')
                every_index(ctx, 'stop-layer', at(e), e.loops[0], k, n)
                ctx.ob('stop-layer', not sat(AND(e.loops[0].body_g, NOT(g))), at(e), 'a cell is kept if %s' % show(NOT(g))[:200])
    ctx.ob('stop-layer', r is not None and not sat(tobool(I.freeze(r))), site, 'the layer consumes the output')


def outputs(ctx):
    fresh_state()
    s = mk('this')
    for c, n in (('Costmap3dStaticLayerOutput', 1), ('Costmap3dUpdateLayerOutput', 2)):
        f = method(ctx, NS + c, 'updateChain')
        up = mk('par', '#update')
        calls_ = []

        def h_gen(I, st, e, d, O, obj):
            I.emit('call', 'generate', st, e['l'], args=(), decl=d)
            return leaf(up)

        I = ctx.interp(hooks={NS + c + '::generateUpdateMsg': h_gen})
        r, st = I.run(f)
        site = at(f)
        cb = fl(s, 'cb_')
        ev = [e for e in I.events if e.kind in ('call', 'callval') and e.name != 'generate' and any(isinstance(a, N) and a.leaf is fl(s, 'map_') for a in (e.args or []))]
        ctx.ob('publish', len(ev) == 1, site, 'the handler is called %d times' % len(ev))
        if len(ev) != 1:
            continue
        e = ev[0]
        at_ = [TM.atoms[v] for v in dvars(e.g)]
        want = AND(bvar(cb), bvar(par(f, 0)))
        cbs = [t for t in at_ if cb in subterms(t)]
        if cbs:
            want = AND(bvar(cbs[0]), bvar(par(f, 0)))
            alt = AND(NOT(bvar(cbs[0])), bvar(par(f, 0)))
            ok = not sat(XOR(e.g, want)) or (cbs[0].op != 'fld' and any(x in show(cbs[0]) for x in ('empty', 'operator!')) and not sat(XOR(e.g, alt)))
        else:
            ok = False
        ctx.ob('publish', ok, at(e), 'the handler is called if %s' % show(e.g)[:200])
        mine = [a for a in e.args if isinstance(a, N) and a.leaf in (fl(s, 'map_'), up)]
        ctx.ob('publish', len(mine) == n and mine[0].leaf is fl(s, 'map_'), at(e), 'the handler receives %s' % ', '.join(show(a)[:80] for a in e.args))
        if n == 2:
            gs = [x for x in I.events if x.kind == 'call' and x.name == 'generate']
            ctx.ob('publish', len(gs) == 1 and gs[0].g is TRUE and gs[0].seq < e.seq, site, 'the update is generated only sometimes, so that the region of unpublished updates is lost')


def update(ctx):
    fresh_state()
    C = NS + 'Costmap3dUpdateLayerOutput'
    f = method(ctx, C, 'generateUpdateMsg')
    I = ctx.interp(hooks=region_hooks())
    r, st = I.run(f)
    site = at(f)
    s = mk('this')
    mapl = mk('deref', fl(s, 'map_'))
    W, H, A = [fl(mapl, 'info', n) for n in ('width', 'height', 'angle')]
    rv = I.freeze(r)
    if rv.leaf is None:
        raise AnchorMissing('update message')
    msg = rv.leaf.args[0] if rv.leaf.op == 'addr' else mk('deref', rv.leaf)
    region = fl(s, 'region_')
    prevs = [t for t in set(subterms_of(I)) if t.op == 'fld' and t.args[1] == 'region_prev_']
    own = clip([region, W, H])
    prev = fl(s, 'region_prev_')
    cov = {clip([union([own, prev]), W, H]), clip([union([region, prev]), W, H])}
    names = dict(x='x_', y='y_', yaw='yaw_', width='width_', height='height_', angle='angle_')
    ew = [mk('fld', own, n) for n in ('width_', 'height_')]
    none = OR(*[cmp_terms('==', t, ZERO, True) for t in ew])
    ints(*ew)
    ce = FALSE
    for c in cov:
        cw = [mk('fld', c, n) for n in ('width_', 'height_')]
        ints(*cw)
        ce = OR(ce, *[cmp_terms('==', t, ZERO, True) for t in cw])
    for n, q in names.items():
        v = lift1c(unU, I.freeze(I.read1(fl(msg, n), st)))
        for g, t in cases(v):
            if not sat(AND(g, NOT(none), NOT(ce))):
                continue
            ok = t.op == 'fld' and t.args[1] == q and t.args[0] in cov
            ctx.ob('update-covers', ok, site, '%s of the update is %s' % (n, show(t)[:300]))
    # empty
    vw = [lift1c(unU, I.freeze(I.read1(fl(msg, n), st))) for n in ('width', 'height')]
    empty_out = OR(*[cmpv('==', v, numv(0), True) for v in vw])
    pe = OR(*[cmp_terms('==', fl(prev, n), ZERO, True) for n in ('width_', 'height_', 'angle_')])
    b = [g for g, t in cases(vw[0]) if t is ZERO and sat(AND(g, none, NOT(pe), NOT(ce)))]
    ctx.ob('update-covers', not b, site, 'an update outside the map is published empty and the previous region is forgotten, although its cells have been restored', fp='empty-update')
    # state
    pv = I.freeze(I.read1(prev, st))
    same_region(ctx, 'update-region', site, I, pv, own, TRUE, 'remembered region')
    nv = regval(I, I.read1(region, st))
    ctx.ob('update-region', all(t.op == 'nothing' for t in leaves(nv)), site, 'the region is not reset but %s' % show(nv)[:200])
    hs = lift1c(unU, I.freeze(I.read1(fl(msg, 'header', 'stamp'), st)))
    okh = all(t in {fl(region, 'stamp_')} | {fl(x, 'stamp_') for x in cov} for t in leaves(hs))
    ctx.ob('update-header', okh, site, 'the time of the update is %s' % show(hs)[:200])
    hf = lift1c(unU, I.freeze(I.read1(fl(msg, 'header', 'frame_id'), st)))
    ctx.ob('update-header', all(t is fl(mapl, 'header', 'frame_id') for t in leaves(hf)), site, 'the frame of the update is %s' % show(hf)[:200])
    # data
    data = fl(msg, 'data')
    rs = [e for e in I.events if e.kind == 'resize']
    cps = [e for e in I.events if e.kind == 'call' and e.name.endswith('memcpy')]
    ctx.ob('update-cells', len(rs) == 1 and not rs[0].loops, site, 'the cells are sized %d times' % len(rs))
    if len(rs) != 1 or not cps:
        ctx.ob('update-cells', bool(cps), site, 'no cells are copied')
        return
    q = {n: mk('par', 'box_' + n) for n in names}
    ints(W, H, A, *q.values())
    mp = {}
    for c in cov:
        for n, k in names.items():
            mp[fl(c, k)] = q[n]
    inv = AND(*[cmp_terms('<=', ZERO, q[n], True) for n in names] +
              [cmp_terms('<=', t_add(q['x'], q['width']), W, True), cmp_terms('<=', t_add(q['y'], q['height']), H, True), cmp_terms('<=', t_add(q['yaw'], q['angle']), A, True)] +
              [cmp_terms('<=', ONE, t, True) for t in (W, H, A, q['angle'], q['width'], q['height'])] + [NOT(none)])
    total = t_mul(t_mul(q['width'], q['height']), q['angle'])
    sz = subst(rs[0].args[0], mp)
    ctx.ob('update-cells', all(t_sub(unU(t), total) is ZERO for t in leaves(sz)), at(rs[0]), 'room for %s cells' % show(sz)[:200])
    ctx.ob('update-cells', not sat(AND(inv, NOT(subst(rs[0].g, mp)))) and all(rs[0].seq < e.seq for e in cps), at(rs[0]), 'the cells are not always sized')
    cx, cy, ca = sweep.cellv(3)
    req = AND(inv, inside(cx, ZERO, q['width']), inside(cy, ZERO, q['height']), inside(ca, ZERO, q['angle']))
    got = FALSE
    whole = AND(cmp_terms('==', q['x'], ZERO, True), cmp_terms('==', q['y'], ZERO, True), cmp_terms('==', q['width'], W, True), cmp_terms('==', q['height'], H, True))
    for e in cps:
        td, ts = [a.leaf.args[0] if a.leaf is not None and a.leaf.op == 'addr' else a.leaf for a in e.args[:2]]
        ok = td is not None and ts is not None and td.op == 'elem' and ts.op == 'elem' and td.args[0] is data and ts.args[0] is fl(mapl, 'data')
        ctx.ob('update-cells', ok, at(e), 'copies from %s to %s' % (show(e.args[1])[:150], show(e.args[0])[:150]))
        if not ok:
            return
        kd, ks = [subst(unU(t.args[1]), mp) for t in (td, ts)]
        ln = lift1c(unU, subst(e.args[2], mp))
        ln = subst(ln, {mk('fld', data, '#size'): total})
        g = subst(AND(e.g, *[l.body_g for l in e.loops]), mp)
        g = drop_exits(g, e.loops)
        for gl, n in cases(ln):
            gg = AND(g, gl, inv)
            if not sat(gg):
                continue
            if not e.loops:
                # the whole message at once: only if the box is as wide and high as the map
                ctx.ob('update-cells', t_sub(n, total) is ZERO and kd is ZERO, at(e), 'copies %s cells to %s at once' % (show(n)[:100], show(kd)[:100]))
                want_src = t_mul(t_mul(q['yaw'], W), H)
                okw = not sat(AND(gg, NOT(whole)))
                oks = not sat(AND(gg, NOT(OR(cmp_terms('==', ks, want_src, True), AND(cmp_terms('==', q['yaw'], ZERO, True), cmp_terms('==', ks, ZERO, True))))))
                ctx.ob('update-cells', okw and oks, at(e), 'all cells are copied at once for a box that is not the whole map: %s' % witness(gg)[:200])
                got = OR(got, gg)
                continue
            dd = poly_by(kd, [q['width'], q['height']])
            ds = poly_by(ks, [W, H])
            if set(dd) - {(0, 0), (1, 0), (1, 1)} or set(ds) - {(0, 0), (1, 0), (1, 1)}:
                ctx.ob('update-cells', False, at(e), 'copies from %s to %s' % (show(ks)[:200], show(kd)[:200]))
                return
            z = ((0, 0), (1, 0), (1, 1))
            for k, o in zip(z, ('x', 'y', 'yaw')):
                df = t_sub(t_sub(ds.get(k, ZERO), dd.get(k, ZERO)), q[o])
                ctx.ob('update-cells', df is ZERO, at(e), '%s of the source is off by %s' % (o, show(df)[:100]))
            sx = row(ctx, e, gg, dd.get(z[0], ZERO), dd.get(z[1], ZERO), dd.get(z[2], ZERO), n, cx, cy, ca)
            got = OR(got, sx)
    miss = AND(req, NOT(got))
    ctx.ob('update-cells', not sat(miss), site, 'a cell of the update is not filled: %s' % (witness(miss)[:300] if sat(miss) else ''))


def subterms_of(I):
    for e in I.events:
        for x in [e.g, e.val, e.loc]:
            if isinstance(x, (T, N)):
                for t in subterms(x):
                    if isinstance(t, T):
                        yield t


# ---- node ------------------------------------------------------------------------------------------------------------
def node(ctx):
    fresh_state()
    N_ = 'Costmap3DOFNode'
    f = ctx.one(N_ + '::cbMap')
    s = mk('this')
    hk = {BASE + '::' + n: quiet('#' + n) for n in ('setBaseMap', 'processMapOverlay')}
    hk[N_ + '::cbMapOverlay'] = quiet('#cbMapOverlay')
    hk[N_ + '::publishDebug'] = quiet('#debug')
    I = ctx.interp(hooks=hk)
    r, st = I.run(f)
    site = at(f)
    buf = fl(s, 'map_buffer_')
    cc = [e for e in I.events if e.kind == 'call']
    b = [e for e in cc if e.name.endswith('::setBaseMap')]
    ok = len(b) == 1 and not b[0].loops and b[0].args[0].leaf is par(f, 0)
    ctx.ob('base-received', ok, site, 'the base map is set %d times' % len(b))
    o = [e for e in cc if e.name.endswith('::cbMapOverlay')]
    ctx.ob('buffered', len(o) == 1 and len(o[0].loops) == 1 and (not b or o[0].seq > b[0].seq), site, 'buffered overlays are processed in %d places' % len(o))
    if len(o) == 1 and len(o[0].loops) == 1:
        e = o[0]
        l = e.loops[0]
        n = mk('fld', buf, '#size')
        ks = {unU(t.args[1]) for a in e.args for t in terms_in(a, 'elem') if t.args[0] is buf}
        ok = len(ks) == 1
        ctx.ob('buffered', ok, at(e), 'the overlays processed are %s' % ', '.join(show(a)[:100] for a in e.args))
        if ok:
            k = ks.pop()
            every_index(ctx, 'buffered', at(e), l, k, n)
            el = mk('elem', buf, k)
            ctx.ob('buffered', e.args[0].leaf is fl(el, 'first') and e.args[1].leaf is fl(el, 'second'), at(e), 'processes %s' % ', '.join(show(a)[:100] for a in e.args))
            ints(n)
            ctx.ob('buffered', not sat(AND(cmp_terms('>', n, ZERO, True), l.body_g, NOT(drop_exits(e.g, [l])))), at(e), 'overlays are skipped if %s' % show(NOT(e.g))[:200])
            ctx.ob('buffered', not sat(AND(cmp_terms('>', n, ZERO, True), NOT(drop_all(l.entry.g)))), at(e), 'overlays are processed only if %s' % show(l.entry.g)[:200])
        sz = I.freeze(I.read1(mk('fld', buf, '#size'), st))
        left = [t for g, t in cases(sz) if t is not ZERO and sat(AND(drop_all(g), cmp_terms('>', n, ZERO, True)))]
        ctx.ob('buffered', not left, site, 'processed overlays stay in the buffer: %s' % show(sz)[:200])
    f = ctx.one(N_ + '::cbMapOverlay')
    hk2 = {k: v for k, v in hk.items() if k != N_ + '::cbMapOverlay'}
    I = ctx.interp(hooks=hk2)
    r, st = I.run(f)
    site = at(f)
    lay = par(f, 1)
    lm = mk('deref', fl(mk('deref', lay), 'map_'))
    W, H = fl(lm, 'info', 'width'), fl(lm, 'info', 'height')
    ints(W, H)
    nomap = OR(cmp_terms('<', W, ONE, True), cmp_terms('<', H, ONE, True))
    p = [e for e in I.events if e.kind == 'call' and e.name.endswith('::processMapOverlay')]
    ps = [e for e in I.events if e.kind == 'push']
    ctx.ob('overlay-received', len(p) == 1 and len(ps) == 1, site, '%d maps processed, %d kept' % (len(p), len(ps)))
    if len(p) != 1 or len(ps) != 1:
        return
    nn = AND(cmp_terms('<=', ZERO, W, True), cmp_terms('<=', ZERO, H, True))
    ctx.ob('overlay-received', not sat(AND(nn, XOR(p[0].g, NOT(nomap)))), at(p[0]), 'an overlay is processed if %s' % show(p[0].g)[:200])
    ctx.ob('overlay-received', not sat(AND(nn, XOR(ps[0].g, nomap))), at(ps[0]), 'an overlay is kept for later if %s' % show(ps[0].g)[:200])
    ob = p[0].obj if isinstance(p[0].obj, T) else p[0].obj.leaf
    ctx.ob('overlay-received', ob in (lay, mk('deref', lay)) and p[0].args[0].leaf is par(f, 0) and not sat(NOT(tobool(p[0].args[1]))), at(p[0]), 'processes %s' % ', '.join(show(a)[:100] for a in p[0].args))
    v = ps[0].args[0]
    ctx.ob('overlay-received', I.freeze(I.getfld(v, 'first')).leaf is par(f, 0) and I.freeze(I.getfld(v, 'second')).leaf is lay and loc_of(ps[0].obj) is buf, at(ps[0]), 'keeps %s' % show(I.freeze(v))[:200])
