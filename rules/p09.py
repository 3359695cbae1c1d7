"""Planner models for a mobile base: refused and accepted motions, their cost, the estimate and the offered motions."""
from core import *
from numlib import *
import sweep
from p05 import residue
from astar_lib import bool_phis
from t03 import roundpi
from p08 import comps, possible, substn, value
UNITS = ['planner_cspace/src/grid_astar_model_3dof.cpp']
NS = 'planner_cspace::planner_3d::'
M = NS + 'GridAstarModel3D'
M2 = NS + 'GridAstarModel2D'
RC = NS + 'RotationCache'
EXPLANATION = ('The cost functions are summarised; the motion is split into in-place turn, straight and curved. The loop over the cells of the motion is treated by '
               'induction: cell read in an iteration, condition to go on, growth of the returned cost per cell; the cost without cells is compared with its definition '
               'by exact rational functions. Estimates, offered lists and the cached straight-line costs are compared with their definitions.')
ASSUMPTIONS = ['even number of headings, positive resolutions', 'cell indices and headings given are inside the map', 'real arithmetic: float rounding is not modelled',
               'the contents of the rotation and motion caches are those decided by P10 and P11']


def check(ctx):
    R = roles(ctx)
    seen = []
    for kind in ('turn', 'turn', 'straight', 'curve', '2d'):
        ctx.part(motion, R, kind, kind_first(kind, seen))
    for p in (estimate, estimate2, updated, constructed, offered, offered2, rough_list):
        ctx.part(p, R)


class Roles(object):
    pass


def rot_hook(kind):
    def hook(I, st, e, d, O, obj):
        a = I.freeze(I.rv(e['a'][0], st))
        k = I.index_key(I.rv(e['a'][1], st), I.et(e['a'][1]), st)
        I.emit('call', d['sqn'], st, e['l'], args=(a, k), decl=d)
        return ('L', lift2c(lambda x, y: mk('rotent', kind, x, y), a, k))
    return hook


HOOKS = {RC + '::getMotion': rot_hook('motion'), RC + '::getRadiuses': rot_hook('radii')}


def skip(I, st, e, d, O, obj):
    """a call decided on its own: recorded with its arguments"""
    if O is None and obj is not None:
        O = I.lval(obj, st)
    vs = tuple(I.freeze(I.rv(a, st)) for a in e['a'])
    I.emit('call', d['sqn'], st, e['l'], args=vs, obj=O, decl=d)
    return None if I.et(e).get('c') == 'void' else leaf(mk('call', d['sqn']))


def roles(ctx):
    """members of the model by the constructor parameter they hold"""
    f = ctx.one(M + '::GridAstarModel3D', lambda f: len(f.params) == 11)
    rec = ctx.p.records[f.cls]
    R = Roles()
    R.ctor, R.rec, R.this = f, rec, mk('this')
    I = ctx.interp(container_index=GRID, hooks={M + '::updateCostParameters': skip, M + '::createEuclidCostCache': skip, RC + '::reset': skip, NS + 'MotionPrimitiveBuilder::build': skip}, opaque={NS + 'MotionCache::reset'})
    _, st = I.run(f)
    R.cI, R.cst = I, st
    R.ref = {}
    for fd in rec['fields']:
        t = rec['_tu'].types[fd['t']]
        if t['c'] in ('ref', 'ptr'):
            v = I.freeze(I.read1(mk('fld', R.this, fd['n']), st))
            for i in range(len(f.params)):
                if v.leaf is not None and par(f, i) in subterms(v):
                    R.ref[i] = mk('deref', mk('fld', R.this, fd['n']))
    if not all(i in R.ref for i in (3, 4, 5, 6)):
        raise AnchorMissing('maps held by the model')
    R.est, R.cm, R.hyst, R.rough = [R.ref[i] for i in (3, 4, 5, 6)]
    fl = lambda p, w: mk('fld', R.this, field_of_type(ctx.p, rec, p, w))
    R.map = fl(lambda t: (t.get('qn') or '').startswith('costmap_cspace_msgs::MapMetaData3D'), 'map description')
    R.cc = fl(lambda t: t.get('qn') == NS + 'CostCoeff', 'coefficients')
    R.cache = fl(lambda t: strip_targs(t.get('qn') or '') in ('std::array', 'std::vector') and 'float' in str(t.get('qn')) + str(t.get('rec')), 'cached straight costs')
    R.rot = fl(lambda t: t.get('qn') == RC, 'rotation cache')
    R.coef, R.mc, R.mcl, R.range, R.local, R.hyst_on = [mk('fld', R.this, n) for n in ('euclid_cost_coef_', 'motion_cache_', 'motion_cache_linear_', 'range_', 'local_range_', 'hysteresis_')]
    have = set(fd['n'] for fd in rec['fields'])
    for t in (R.coef, R.mc, R.mcl, R.range, R.local, R.hyst_on):
        if t.args[1] not in have:
            raise AnchorMissing('member %s' % t.args[1])
    R.A = mk('fld', R.map, 'angle')
    R.lin, R.ang = mk('fld', R.map, 'linear_resolution'), mk('fld', R.map, 'angular_resolution')
    R.k = [mk('elem', mk('fld', R.coef, 'e_'), num(i)) for i in range(3)]
    for t in (R.A, R.range, R.local):
        int_terms.add(t)
    return R


def cc(R, n):
    return mk('fld', R.cc, n)


def even(R):
    """even number of headings"""
    h = [leafof(idiv_leaf(R.A)), leafof(idiv_leaf(t_neg(R.A)))]
    return AND(cmp_terms('>=', R.A, num(2), True), cmp_terms('==', t_mul(num(2), h[0]), R.A, True), cmp_terms('==', t_mul(num(2), h[1]), t_neg(R.A), True))


def idiv_leaf(x):
    r = mk('idiv', x, num(2))
    int_terms.add(r)
    return leaf(r)


def wrap_facts(v, R):
    """range of the symmetric wrap (P05)"""
    g = TRUE
    for t in terms_in(v, 'cycs'):
        if t.args[1] is R.A:
            g = AND(g, cmp_terms('>=', t_mul(num(2), t), t_neg(R.A), True), cmp_terms('<', t_mul(num(2), t), R.A, True))
    return g


def wrap_cases(v, R):
    """the unsigned wrap (P05) of a value at most one turn off"""
    g = TRUE
    n = R.A
    for t in terms_in(v, 'cycu'):
        if t.args[1] is n:
            x = t.args[0]
            ge = lambda a, b: cmp_terms('>=', a, b, True)
            lt = lambda a, b: cmp_terms('<', a, b, True)
            eq = lambda a, b: cmp_terms('==', a, b, True)
            g = AND(g, ge(t, ZERO), lt(t, n), OR(AND(ge(x, ZERO), lt(x, n), eq(t, x)), AND(ge(x, t_neg(n)), lt(x, ZERO), eq(t, t_add(x, n))),
                                                 AND(ge(x, n), lt(x, t_add(n, n)), eq(t, t_sub(x, n))), lt(x, t_neg(n)), ge(x, t_add(n, n))))
    return g


def page_facts(v, cur2):
    """heading pages exist for every heading of the map"""
    g = TRUE
    for t in terms_in(v, 'imod'):
        if t.args[0] is cur2:
            g = AND(g, cmp_terms('>=', t, ZERO, True))
    return g


def euclid(R, d, angular=True):
    """straight distance times its coefficient plus the wrapped turn times its coefficient"""
    r2 = t_add(t_mul(d[0], d[0]), t_mul(d[1], d[1]))
    e = leaf(t_mul(R.k[0], leafof(fn_leaf('sqrt', r2))))
    if angular:
        e = lift2c(t_add, e, absval(t_mul(R.k[2], d[2])))
    return e


def uncache(R, v):
    """cached straight costs replaced by what the cache holds"""
    mp = {}
    for t in terms_in(v, 'elem'):
        if t.args[0] is R.cache:
            mp[t] = t_mul(R.k[0], leafof(fn_leaf('sqrt', t.args[1])))
    return subst(v, mp) if mp else v


def run(ctx, f):
    I = ctx.interp(container_index=GRID, hooks=HOOKS)
    ret, st = I.run(f)
    return I, I.freeze(ret), st


def rebased(ctx, R):
    """the roles as seen from the two-dimensional model, which holds the three-dimensional one"""
    rec = ctx.p.records[ctx.one(M2 + '::cost').cls]
    b = field_of_type(ctx.p, rec, lambda t: (t.get('qn') or '').endswith('shared_ptr'), 'base model')
    B = mk('deref', mk('fld', R.this, b))
    Q = Roles()
    for k, v in R.__dict__.items():
        if isinstance(v, T):
            v = subst(v, {R.this: B})
        elif k == 'k':
            v = [subst(x, {R.this: B}) for x in v]
        setattr(Q, k, v)
    for t in (Q.A, Q.range, Q.local):
        int_terms.add(t)
    return Q


def kind_first(kind, seen):
    seen.append(kind)
    return seen.count(kind) == 1


def motion(ctx, R, kind, first):
    f = ctx.one((M2 if kind == '2d' else M) + '::cost')
    site = at(f)
    if kind == '2d':
        R = rebased(ctx, R)
    I, ret, st = run(ctx, f)
    cur, nxt = comps(par(f, 0), 3), comps(par(f, 1), 3)
    start = ZERO if kind == '2d' else cur[2]
    MC_, CM_ = (R.mcl, R.rough) if kind == '2d' else (R.mc, R.cm)
    d = [t_sub(nxt[0], cur[0]), t_sub(nxt[1], cur[1]), mk('cycs', t_sub(nxt[2], cur[2]), R.A)]
    int_terms.add(d[2])
    cell = lambda m, v: ivar(mk('elem', m, mk('vec', *v)))
    ends = [cell(R.cm, cur), cell(R.cm, nxt)]
    still = AND(cmp_terms('==', d[0], ZERO, True), cmp_terms('==', d[1], ZERO, True))
    noturn = cmp_terms('==', d[2], ZERO, True)
    K = {'turn': still, 'straight': AND(NOT(still), noturn), 'curve': AND(NOT(still), NOT(noturn)), '2d': NOT(still)}[kind]
    if kind == 'turn':
        left = cmp_terms('<', d[2], ZERO, True)
        K = AND(K, left if first else NOT(left))
    G = AND(even(R), cmp_terms('>=', cur[2], ZERO, True), cmp_terms('<', cur[2], R.A, True), cmp_terms('>=', nxt[2], ZERO, True), cmp_terms('<', nxt[2], R.A, True), K)
    G = AND(G, wrap_facts(leaf(d[2]), R), page_facts(ret, start))
    refused = lambda g, rule, what: ctx.entail(rule, AND(G, st.g, g), eqv(possible(ret, AND(G, st.g, g)), numv(-1), None), site, what)
    lethal = OR(*[cmp_terms('>', c, num(99), True) for c in ends])
    if kind == 'turn' and first:
        for k, c in zip(('start', 'end'), ends):
            g = cmp_terms('>', c, num(99), True)
            ctx.entail('forbidden-end-refused', AND(even(R), st.g, g), eqv(possible(ret, AND(even(R), st.g, g)), numv(-1), None), site, 'a motion with its %s on a forbidden cell is accepted' % k)
    if kind != '2d':
        G = AND(G, NOT(lethal))
    # the loop over the cells of the motion
    loops = [L for L in I.loop_info if L.next is not None and sat(AND(G, L.next.g)) and
             any(t.args[0] is CM_ and (L.ind in subterms(t) or any(p.args[0] == L.id for p in terms_in(t, 'phi'))) for t in terms_in(L.next.g, 'elem') + terms_in(L.body_g, 'elem') + phi_terms(I, L))]
    if not loops:
        ctx.ob('cells-visited', False, site, 'no cell of the map is read along a %s' % WORD[kind])
        return
    if len(loops) != 1:
        raise Unsupported('%d loops over cells' % len(loops))
    L = loops[0]
    mp = {t: start for L_ in I.loop_info for v in (L_.body_g, ret) for t in terms_in(v, 'imod') if t.args[0] is start}
    for o in I.loop_info:
        if o is not L and o.next is not None:
            b = subst(o.body_g, mp)
            if not sat(AND(G, subst(b, {o.ind: ZERO}))):
                mp[o.ind] = ZERO
    G0 = G
    S = lambda v: possible(subst(v, mp), G0) if isinstance(v, N) else subst(v, mp)
    body, head, nxtg, ret2 = S(L.body_g), S(L.head.g), S(L.next.g), S(ret)
    stg = S(st.g)
    G = AND(G, cmp_terms('>=', L.ind, ZERO, True))
    vis = [t for t in set(terms_in(nxtg, 'elem') + terms_in(ret2, 'elem') + phi_terms(I, L, S)) if t.args[0] is CM_ and (L.ind in subterms(t) or terms_in(t, 'phi'))]
    vis = [t for t in vis if sat(AND(G, mention(t, nxtg, I, L, S)))]
    if len(vis) != 1:
        ctx.ob('cells-visited', False, site, '%d different cells are read per iteration of a %s' % (len(vis), WORD[kind]))
        return
    c = vis[0]
    int_terms.add(c)
    x = c.args[1].args
    page = None
    if kind == 'turn':
        n = absval(d[2])
        place_turn(ctx, R, I, L, G, body, x, cur, d[2], site, S)
    else:
        pages = [t for t in terms_in(c, 'elem') if t.args[1].op == 'vec' and t.args[0] is not CM_ and MC_ in subterms(t)]
        ps = [p for p in set(pages) if p.args[0].op == 'elem']
        if len(ps) != 1:
            raise Unsupported('%d pages of the motion cache' % len(ps))
        page = ps[0]
        key = page.args[1].args
        want = [d[0], d[1], mk('cycu', nxt[2], R.A) if kind != '2d' else ZERO]
        if kind != '2d':
            int_terms.add(want[2])
        ok = all(key_eq(k, w, G, R) for k, w in zip(key, want)) and len(key) == 3
        ctx.ob('motion-looked-up', ok, site, 'a %s is looked up as %s' % (WORD[kind], ', '.join(show(k) for k in key)))
        pi = page.args[0].args[1]
        ctx.ob('motion-looked-up', residue(pi, pi_mod(pi)) is start, site, 'the motion is looked up for heading %s' % show(pi))
        lst = [t for t in terms_in(c, 'elem') if t.args[1] is L.ind and page in subterms(t)]
        if len(set(lst)) != 1:
            raise Unsupported('cells of the cached motion')
        lst = lst[0]
        n = leaf(ivar(mk('fld', lst.args[0], '#size')))
        e = [ivar(mk('elem', mk('fld', lst, 'e_'), num(i))) for i in range(3)]
        for i, w in enumerate((t_add(cur[0], e[0]), t_add(cur[1], e[1]), e[2] if kind != '2d' else ZERO)):
            ctx.ob('cells-visited', x[i] is w, site, 'component %d of the cell read along a %s is %s' % (i, WORD[kind], show(x[i])))
        has = [t for t in set(terms_in(ret2) + terms_in(body)) if t.op == 'elem' and t.args[0].op == 'fld' and t.args[0].args[1] == '#has']
        has = [h for h in has if h.args[0].args[0] is page.args[0]]
        if not has:
            ctx.ob('unknown-motion-refused', False, site, 'a %s is used without knowing whether it exists' % WORD[kind])
        hs = AND(*[TM.bvar(h) for h in has])
        g = NOT(hs)
        ctx.entail('unknown-motion-refused', AND(G, stg, g), eqv(possible(ret2, AND(G, stg, g)), numv(-1), None), site, 'a %s that does not exist is accepted' % WORD[kind])
        G = AND(G, hs)
    inrange = lift1(lambda t: cmp_terms('<', L.ind, t, True), n)
    if kind == 'curve':
        mn = [ivar(t) for t in comps_of(R, 'min_boundary_')]
        mx = [ivar(t) for t in comps_of(R, 'max_boundary_')]
        out = OR(*[OR(cmp_terms('<', c_, a, True), cmp_terms('>=', c_, b, True)) for c_, a, b in zip(cur, mn, mx)])
        ctx.entail('curve-near-border-refused', AND(G, stg, out), eqv(possible(ret2, AND(G, stg, out)), numv(-1), None), site, 'a curve that may leave the map is accepted')
        G = AND(G, NOT(out))
    bad = cmp_terms('>', c, num(99), True)
    ctx.entail('every-cell-visited', AND(G, body), inrange, site, 'the loop over the cells of a %s runs past the end' % WORD[kind])
    ctx.entail('every-cell-visited', AND(G, head, inrange), body, site, 'the loop over the cells of a %s ends early' % WORD[kind])
    ctx.entail('forbidden-cell-refused', AND(G, nxtg, inrange), NOT(bad), site, 'a %s over a forbidden cell goes on' % WORD[kind])
    ctx.entail('free-cell-goes-on', AND(G, head, inrange, NOT(bad)), nxtg, site, 'a %s over free cells is refused' % WORD[kind])
    ctx.entail('forbidden-cell-refused', AND(G, stg, inrange), eqv(possible(ret2, AND(G, stg, inrange)), numv(-1), None), site, 'a %s over a forbidden cell is accepted' % WORD[kind])
    # cost
    done = AND(G, NOT(inrange), S(last_iteration_of(L)))
    fin = possible(ret2, AND(done, stg))
    ph = [t for t in terms_in(fin, 'phi') if t.args[0] == L.id]
    entry = {t: S(value(I, t, L.entry)) for t in ph}
    nx = {t: S(value(I, t, L.next)) for t in ph}
    e0 = uncache(R, substn(fin, entry))
    if kind == 'straight':
        d[2] = ZERO
        e0 = subst(e0, {mk('cycs', t_sub(nxt[2], cur[2]), R.A): ZERO})
    base, per = definition(R, kind, f, cur, nxt, d, c, page, I, G)
    agree(ctx, 'cost-without-cells', site, roundpi(lib(e0)), roundpi(base), AND(G, NOT(inrange)), WORD[kind])
    diff = lift2c(t_sub, substn(fin, nx), fin)
    agree(ctx, 'cost-per-cell', site, roundpi(lib(uncache(R, diff))), roundpi(per), AND(G, nxtg), WORD[kind])
    if kind in ('straight', 'curve'):
        for e in evs(I, 'call', (RC + '::getMotion', RC + '::getRadiuses')):
            g = AND(G, e.g)
            if not sat(g):
                continue
            v = [t_add(d[0], R.range), t_add(d[1], R.range), nxt[2]]
            ok = lift2(lambda a, k: AND(cmp_terms('==', a, cur[2], True), *[cmp_terms('==', p, q, True) for p, q in zip(k.args, v)]), e.args[0], e.args[1])
            ctx.entail('rotation-looked-up', g, ok, at(e))


WORD = {'turn': 'turn on the spot', 'straight': 'straight motion', 'curve': 'curve', '2d': 'motion of the coarse search'}


def last_iteration_of(L):
    prev = subst(L.next.g, {L.ind: t_sub(L.ind, ONE)})
    return OR(cmp_terms('<=', L.ind, ZERO, True), prev)


def phi_terms(I, L, S=lambda v: v):
    r = []
    for l in L.phis:
        v = S(I.freeze(I.read1(l, L.next)))
        r += terms_in(v, 'elem')
    return r


def mention(t, g, I, L, S):
    """guard under which the cell t is looked at in an iteration"""
    r = FALSE
    for v in [g] + [S(I.freeze(I.read1(l, L.next))) for l in L.phis]:
        for x in dvars(v):
            if t in subterms(TM.atoms[x]):
                r = OR(r, TRUE)
        for gg, y in (cases(v) if not (v.leaf is None and is_bool(v)) else []):
            if isinstance(y, T) and t in subterms(y):
                r = OR(r, gg)
    return r


def is_bool(v):
    return v in (TRUE, FALSE) or all(x.op in ('true', 'false') for x in leaf_ops(v))


def leaf_ops(v):
    return [t for t in subterms(v) if isinstance(t, T) and t.op in ('true', 'false')] or [mk('none')]


def ivar(t):
    int_terms.add(t)
    return t


def comps_of(R, n):
    return [mk('elem', mk('fld', mk('fld', R.this, n), 'e_'), num(i)) for i in range(2)]


def pi_mod(t):
    return t.args[1] if t.op == 'imod' else ZERO


def key_eq(k, w, G, R):
    if k is w:
        return True
    if w.op == 'cycu' and k is w.args[0]:
        return True     # the heading given is inside the map
    return not sat(AND(G, NOT(cmp_terms('==', k, w, True))))


def place_turn(ctx, R, I, L, G, body, x, cur, d2, site, S):
    """heading in iteration i: i steps from the start in the direction of the shorter turn, wrapped"""
    for i in range(2):
        ctx.ob('cells-visited', x[i] is cur[i], site, 'component %d of the cell read in a turn is %s' % (i, show(x[i])))
    up = ite(cmp_terms('<', d2, ZERO, True), leaf(num(-1)), leaf(ONE))
    h = x[2]
    if h.op == 'phi' and h.args[0] == L.id:
        ent = S(I.freeze(I.typed(I.read1(h.args[1], L.entry), INT32)))
        nx = S(I.freeze(I.typed(I.read1(h.args[1], L.next), INT32)))
        ctx.entail('turn-headings', AND(G, S(L.entry.g)), eqv(ent, leaf(cur[2]), True), site, 'a turn does not start at the heading of its start')
        inv = AND(cmp_terms('>=', h, ZERO, True), cmp_terms('<', h, R.A, True))
        g = AND(G, S(L.next.g), inv, wrap_cases(nx, R))
        step = lift2(lambda a, s: OR(*[cmp_terms('==', a, t_add(t_add(h, s), t), True) for t in (ZERO, R.A, t_neg(R.A))]), nx, up)
        ctx.entail('turn-headings', g, step, site, 'a turn does not visit the neighboring heading of the shorter direction')
        ctx.entail('turn-headings', g, lift1(lambda a: AND(cmp_terms('>=', a, ZERO, True), cmp_terms('<', a, R.A, True)), nx), site, 'a turn leaves the range of headings')
        return
    # closed form
    for gu, s in cases(up):
        g = AND(G, body, gu)
        if not sat(g):
            continue
        w = t_add(cur[2], t_mul(s, L.ind))
        ok = False
        if h.op in ('cycu', 'imod') and h.args[1] is R.A:
            a = h.args[0]
            ok = residue(a, R.A) is residue(w, R.A)
            if h.op == 'imod':
                ok = ok and not sat(AND(g, cmp_terms('<', a, ZERO, True)))
        ctx.ob('turn-headings', ok, site, 'heading read in a turn is %s' % show(h))


def definition(R, kind, f, cur, nxt, d, c, page, I, G):
    """(cost without cells, cost added per cell)"""
    H = num(100)
    e = euclid(R, d, kind != '2d')
    if kind == '2d':
        size = cell_list(c, page)
        return e, leaf(t_mul(t_fdiv(t_mul(R.lin, mk('fld', page, 'distance_')), t_mul(H, size)), t_mul(c, cc(R, 'weight_costmap_'))))
    thr = cc(R, 'turn_penalty_cost_threshold_')
    int_terms.add(thr)
    above = cmp_terms('>=', c, thr, True)
    if kind == 'turn':
        per = t_mul(c, t_mul(R.ang, t_add(t_fdiv(cc(R, 'weight_costmap_turn_'), H), t_fdiv(t_mul(t_fdiv(R.k[2], R.k[0]), cc(R, 'weight_costmap_turn_heuristics_')), H))))
        return lift1c(lambda t: t_add(t, cc(R, 'in_place_turn_')), e), ite(above, leaf(per), leaf(ZERO))
    ent = mk('rotent', 'motion', cur[2], mk('vec', t_add(d[0], R.range), t_add(d[1], R.range), nxt[2]))
    m = [mk('elem', mk('fld', ent, 'e_'), num(i)) for i in range(2)]
    e = ite(cmp_terms('<', m[0], ZERO, False), lift1c(lambda t: t_mul(t, t_add(ONE, cc(R, 'weight_backward_'))), e), e)
    num_ = cell_list(c, page)
    dist = mk('fld', page, 'distance_')
    hN = t_fdiv(t_mul(R.lin, dist), t_mul(H, num_))
    hc = ivar(mk('elem', R.hyst, c.args[1]))
    per = ite(TM.bvar(R.hyst_on), leaf(t_mul(hN, t_add(t_mul(c, cc(R, 'weight_costmap_')), t_mul(hc, cc(R, 'weight_hysteresis_'))))), leaf(t_mul(hN, t_mul(c, cc(R, 'weight_costmap_')))))
    if kind == 'straight':
        a = absval(t_fdiv(m[1], m[0]))
        e = lift2c(lambda t, s: t_add(t, t_fdiv(t_mul(t_mul(R.k[2], s), R.ang), num(2 * PI))), e, a)
        return e, per
    rad = mk('rotent', 'radii', *ent.args[1:])
    r1, r2 = mk('fld', rad, 'first'), mk('fld', rad, 'second')
    mv, mw = cc(R, 'max_vel_'), cc(R, 'max_ang_vel_')
    slow = lift1(lambda t: cmp_terms('>', t, mw, False), absval(t_fdiv(mv, r1)))
    dd = leafof(fn_leaf('sqrt', t_add(t_mul(m[0], m[0]), t_mul(m[1], m[1]))))
    vel = lift1c(lambda t: t_mul(t, mw), absval(t_fdiv(t_add(r1, r2), num(2))))
    pen = lift1n(vel, lambda v: absval(t_fdiv(v, mv)))
    pen = lift1c(lambda t: t_mul(t_mul(dd, t), cc(R, 'weight_decel_')), pen)
    e = ite(slow, lift2c(t_add, e, pen), e)
    turn = leafs(absval(d[2]), lambda a: t_fdiv(t_mul(t_mul(t_mul(c, R.ang), a), cc(R, 'weight_costmap_turn_')), t_mul(H, num_)))
    per = lift2c(t_add, per, ite(above, turn, leaf(ZERO)))
    return e, per


def cell_list(c, page):
    """number of cells of the cached motion"""
    t = [t for t in terms_in(c, 'elem') if page in subterms(t) and t is not page and t.args[1].op == 'ind'][0]
    return ivar(mk('fld', t.args[0], '#size'))


def lift1n(v, f):
    """f returns a guarded value"""
    if v.leaf is not None:
        return f(v.leaf)
    return ite(TM.bvar(atoms[v.var]), lift1n(v.hi, f), lift1n(v.lo, f))


def leafs(v, f):
    return lift1c(f, v)


def estimate(ctx, R):
    """cached estimate of the place plus the weighted shorter turn; unreachable stays unreachable"""
    f = ctx.one(M + '::costEstim')
    site = at(f)
    I, ret, st = run(ctx, f)
    cur, goal = comps(par(f, 0), 3), comps(par(f, 1), 3)
    base = mk('elem', R.est, mk('vec', cur[0], cur[1], ZERO))
    top = leaf(num(Fraction('340282346638528859811704183484516925440')))
    tops = [t for t in terms_in(ret, 'num') if abs(t.args[0]) > 10**37]
    far = cmp_terms('==', base, tops[0] if tops else top.leaf, False)
    ctx.entail('unreachable-stays-unreachable', AND(st.g, far), eqv(ret, leaf(tops[0]) if tops else top, None), site)
    raw = t_sub(cur[2], goal[2])
    G = AND(even(R), NOT(far), st.g)
    for g, t in cases(possible(ret, G)):
        g = AND(G, g)
        if not sat(g):
            continue
        e = t_fdiv(t_sub(t, base), R.k[2])
        if any(p < 0 for m in topoly(e) for _, p in m):
            ctx.ob('estimate-is-cached-plus-turn', False, site, 'estimate is %s' % show(t))
            continue
        w = uncyc(e, R.A)
        hit = [x for x in (w, t_neg(w)) if residue(t_sub(x, raw), R.A) is ZERO]
        ctx.ob('estimate-is-cached-plus-turn', bool(hit), site, 'the turn counted is %s' % show(e))
        h = AND(g, wrap_facts(leaf(e), R), last_iteration(I))
        for mp in none_or_some(I):
            some = AND(*[cmp_terms('>=', L.ind, ONE, True) for L in I.loop_info if L.ind not in mp])
            hh, ee = AND(subst(h, mp), some), subst(e, mp)
            ctx.entail('estimate-is-cached-plus-turn', hh, AND(cmp_terms('>=', ee, ZERO, True), cmp_terms('<=', t_mul(num(2), ee), R.A, True)), site, 'the turn counted is not the shorter one')


def none_or_some(I):
    """each loop ran not at all (mapped to zero) or at least once"""
    r = [{}]
    for L in I.loop_info:
        r = [m for x in r for m in (x, x | {L.ind: ZERO})]
    return r



def uncyc(t, n):
    """symmetric and unsigned wraps dropped (congruent)"""
    mp = {x: x.args[0] for x in terms_in(leaf(t)) if x.op in ('cycs', 'cycu', 'imod') and x.args[1] is n}
    return subst(t, mp) if mp else t


def estimate2(ctx, R):
    f = ctx.one(M2 + '::costEstim')
    R = rebased(ctx, R)
    I, ret, st = run(ctx, f)
    cur, goal = comps(par(f, 0), 3), comps(par(f, 1), 3)
    agree(ctx, 'coarse-estimate-is-straight-distance', at(f), lib(uncache(R, ret)), euclid(R, [t_sub(a, b) for a, b in zip(cur, goal)], False))
    cached_index(ctx, R, ret, at(f))


def cached_index(ctx, R, v, site):
    """only entries that exist are read"""
    n = leafof(table_size(ctx, R))
    for g, t in cases(v):
        for x in terms_in(t, 'elem'):
            if x.args[0] is R.cache:
                ctx.entail('cached-entry-exists', g, cmp_terms('<', x.args[1], n, True), site)


def table_size(ctx, R):
    return leaf(num(int(''.join(c for c in [fd for fd in R.rec['fields'] if fd['n'] == R.cache.args[1]][0] and R.rec['_tu'].types[[fd for fd in R.rec['fields'] if fd['n'] == R.cache.args[1]][0]['t']]['rec'].split(',')[-1] if c.isdigit()))))


def updated(ctx, R):
    """after a change of the coefficients everything derived from them is the one for the new coefficients"""
    f = ctx.one(M + '::updateCostParameters')
    site = at(f)
    I = ctx.interp(container_index=GRID, hooks={NS + 'MotionPrimitiveBuilder::build': skip})
    _, st = I.run(f)
    coef, c, local = [par(f, i) for i in range(3)]
    for loc, want, what in ((R.local, local, 'local range'), (R.cc, c, 'coefficients')):
        v = I.freeze(I.read1(loc, st))
        ctx.ob('parameters-taken-over', v.leaf is want, site, 'the %s held after an update is %s' % (what, show(v)))
    for i in range(3):
        w = mk('elem', mk('fld', coef, 'e_'), num(i))
        v = I.freeze(I.read1(R.k[i], st))
        ctx.ob('parameters-taken-over', v.leaf is w, site, 'distance coefficient %d held after an update is %s' % (i, show(v)))
    # straight costs
    (X,) = sweep.cellv(1)
    n = leafof(table_size(ctx, R))
    dom = AND(cmp_terms('>=', X, ZERO, True), cmp_terms('<', X, n, True))
    cov = FALSE
    k0 = mk('elem', mk('fld', coef, 'e_'), ZERO)
    es = [(e, g, t, m) for e, g, t, m, _ in sweep.stores(I, R.cache)]
    ctx.need('stores of straight costs', len(es))
    for e, g, t, m in es:
        for v in sweep.visits([leaf(m.args[1])], g, list(e.loops)):
            ctx.entail('cached-entry-exists', v.g, dom, at(e))
            want = t_mul(k0, leafof(fn_leaf('sqrt', X)))
            agree(ctx, 'straight-costs-refreshed', at(e), subst(lib(I.freeze(e.val)), v.mp), leaf(want), AND(dom, v.g))
            cov = OR(cov, v.g)
            if sweep.stops(v.loops, v.mp, AND(dom, v.g)):
                ctx.ob('straight-costs-refreshed', False, at(e), 'the table is left partly filled')
    ctx.ob('straight-costs-refreshed', not sat(AND(dom, st.g, NOT(cov))), site, 'an entry keeps the cost for the old coefficients: ' + witness(AND(dom, st.g, NOT(cov))))
    b = calls(I, NS + 'MotionPrimitiveBuilder::build')
    ok = FALSE
    for e in b:
        ok = OR(ok, AND(e.g, TRUE if e.args[0].leaf is R.map and e.args[1].leaf is c and e.args[2].leaf is R.range else FALSE))
    ctx.entail('primitives-rebuilt', st.g, ok, site, 'the offered motions are not rebuilt for the new coefficients')
    prim = mk('fld', R.this, field_of_type(ctx.p, R.rec, lambda t: (t.get('qn') or '').startswith('std::vector') and 'std::vector<std::vector' in t['rec'], 'motions per heading'))
    v = I.freeze(I.read1(prim, st))
    ctx.ob('primitives-rebuilt', v.leaf is mk('call', NS + 'MotionPrimitiveBuilder::build'), site, 'the motions offered are %s' % show(v))
    g = ctx.one(M + '::enableHysteresis')
    I = ctx.interp()
    _, st = I.run(g)
    ctx.entail('hysteresis-switch', st.g, XNOR(I.freeze(I.read1(R.hyst_on, st)), TM.bvar(par(g, 0))), at(g))


def XNOR(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def constructed(ctx, R):
    """caches are built for the given map and range; the border is as wide as the longest motion"""
    f, I, st = R.ctor, R.cI, R.cst
    site = at(f)
    lin, ang = mk('fld', par(f, 0), 'linear_resolution'), mk('fld', par(f, 0), 'angular_resolution')
    for loc, qn, src, what in ((R.rot, RC + '::reset', None, 'rotation cache'), (R.mc, NS + 'MotionCache::reset', 4, 'motion cache'), (R.mcl, NS + 'MotionCache::reset', 6, 'coarse motion cache')):
        ok = FALSE
        for e in calls(I, qn):
            if e.obj is None or e.obj.leaf is not loc:
                continue
            o = e.args[0].leaf is lin and e.args[1].leaf is ang and e.args[2].leaf is par(f, 8)
            if src is not None and o:
                o = any(par(f, src) in subterms(a) for a in e.args[3:4]) and e.args[4].leaf is par(f, 9) and e.args[5].leaf is par(f, 10)
            ok = OR(ok, e.g if o else FALSE)
        ctx.entail('caches-built-for-the-map', st.g, ok, site, 'the %s is not built for the given map' % what)
    ok = FALSE
    for e in calls(I, M + '::updateCostParameters'):
        ok = OR(ok, e.g if e.args[0].leaf is par(f, 1) and e.args[1].leaf is par(f, 7) and e.args[2].leaf is par(f, 2) else FALSE)
    ctx.entail('caches-built-for-the-map', st.g, ok, site, 'the costs are not prepared for the given coefficients')
    rng = [I.freeze(I.typed(I.read1(mk('elem', mk('fld', mk('fld', R.mc, 'max_range_'), 'e_'), num(i)), st), INT32)) for i in range(2)]
    for i, n in enumerate(('width', 'height')):
        mn, mx = [I.freeze(I.typed(I.read1(mk('elem', mk('fld', mk('fld', R.this, m), 'e_'), num(i)), st), INT32)) for m in ('min_boundary_', 'max_boundary_')]
        ctx.entail('border-as-wide-as-motions', st.g, eqv(mn, rng[i], True), site)
        size = mk('fld', par(f, 0), n)
        ctx.entail('border-as-wide-as-motions', st.g, eqv(lift1c(unU, mx), lift1c(lambda t: t_sub(size, t), rng[i]), True), site)
    ctx.entail('hysteresis-switch', st.g, NOT(I.freeze(I.read1(R.hyst_on, st))), site, 'hysteresis is on from the start')


def offered(ctx, R):
    """all kinematically possible motions near a start, the coarse list elsewhere"""
    f = ctx.one(M + '::searchGrids')
    site = at(f)
    I = ctx.interp(container_index=GRID)
    ret, st = I.run(f)
    ret = I.freeze(ret[1] if isinstance(ret, tuple) else ret)
    p = comps(par(f, 0), 3)
    ss = par(f, 1)
    L = [l for l in I.loop_info if l.next is not None]
    if not L and I.loop_info:
        ctx.ob('every-start-considered', False, site, 'only the first start is looked at')
        return
    if len(L) != 1:
        raise Unsupported('%d loops over the starts' % len(L))
    L = L[0]
    n = ivar(mk('fld', ss, '#size'))
    s = [ivar(mk('elem', mk('fld', mk('fld', mk('elem', ss, L.ind), 'v_'), 'e_'), num(i))) for i in range(2)]
    d2 = ZERO
    for a, b in zip(s, p):
        d2 = t_add(d2, t_mul(t_sub(a, b), t_sub(a, b)))
    near = cmp_terms('<', d2, t_mul(R.local, R.local), True)
    G = cmp_terms('>=', L.ind, ZERO, True)
    inr = cmp_terms('<', L.ind, n, True)
    prim = mk('elem', mk('fld', R.this, field_of_type(ctx.p, R.rec, lambda t: (t.get('qn') or '').startswith('std::vector') and 'std::vector<std::vector' in t['rec'], 'motions per heading')), p[2])
    rough = rough_of(ctx, R)
    is_prim = lift1(lambda t: TRUE if t is prim else FALSE, ret)
    is_rough = lift1(lambda t: TRUE if t is rough else FALSE, ret)
    found, newfound = FALSE, FALSE
    for b in dict.fromkeys(b for b in bool_phis(ret) + bool_phis(L.next.g) + bool_phis(L.body_g) if b.args[0] == L.id):
        nv = I.freeze(I.read1(b.args[1], L.next))
        if I.freeze(I.read1(b.args[1], L.entry)) is not FALSE:
            raise Unsupported('flag of the loop over the starts does not start false')
        ctx.entail('near-start-offers-motions', AND(G, inr, L.next.g, NOT(bvar(b)), nv), near, site, 'a start far from the cell counts as near')
        ctx.entail('near-start-offers-motions', AND(G, inr, L.next.g, bvar(b)), nv, site, 'a near start is forgotten')
        found, newfound = OR(found, bvar(b)), OR(newfound, nv)
    ctx.entail('every-start-considered', AND(G, L.head.g, inr, NOT(found)), L.body_g, site, 'a start is not looked at')
    ctx.entail('every-start-considered', AND(G, L.body_g), inr, site, 'more starts than given are looked at')
    last = last_iteration_of(L)
    ctx.entail('near-start-offers-motions', AND(G, L.next.g, near), newfound, site, 'a start near the cell does not end the search')
    ctx.entail('near-start-offers-motions', AND(G, L.body_g, NOT(near)), L.next.g, site, 'a start far from the cell ends the search')
    ctx.entail('near-start-offers-motions', AND(G, st.g, OR(inr, found)), is_prim, site, 'near a start other motions are offered')
    ctx.entail('far-cells-offer-coarse-list', AND(G, st.g, NOT(inr), NOT(found), last), is_rough, site, 'far from the starts other motions are offered')


def rough_of(ctx, R):
    return mk('fld', R.this, field_of_type(ctx.p, R.rec, lambda t: (t.get('qn') or '').startswith('std::vector') and 'std::vector<std::vector' not in t['rec'], 'coarse list'))


def offered2(ctx, R):
    f = ctx.one(M2 + '::searchGrids')
    rough = subst(rough_of(ctx, R), {R.this: rebased(ctx, R).this})
    I = ctx.interp(container_index=GRID)
    ret, st = I.run(f)
    ret = I.freeze(ret[1] if isinstance(ret, tuple) else ret)
    ctx.ob('coarse-search-offers-coarse-list', ret.leaf is rough, at(f), 'returns %s' % show(ret))


def rough_list(ctx, R):
    """the coarse list holds every displacement within the range, and no other"""
    f, I, st = R.ctor, R.cI, R.cst
    site = at(f)
    lst = rough_of(ctx, R)
    r = par(f, 8)
    int_terms.add(r)
    C = sweep.cellv(3)
    pre = cmp_terms('>=', r, ZERO, True)
    X, Y, Z = C
    box = AND(pre, cmp_terms('==', Z, ZERO, True), *[AND(cmp_terms('>=', t, t_neg(r), True), cmp_terms('<=', t, r, True)) for t in (X, Y)])
    inside = cmp_terms('<=', t_add(t_mul(X, X), t_mul(Y, Y)), t_mul(r, r), True)
    want = AND(box, inside)
    es = [e for e in I.events if e.kind == 'push' and e.obj is not None and e.obj.leaf is lst]
    ctx.need('coarse list pushes', len(es))
    cov = FALSE
    for e in es:
        u = e.args[0].leaf.args[0].val
        keys = [I.typed(I.freeze(I._getelem(I.getfld(u, 'e_'), num(i))), INT32) for i in range(3)]
        vs = sweep.visits(keys, e.g, list(e.loops))
        if len(vs) > 1 or len(es) > 1:
            ctx.ob('each-displacement-once', all(not sat(AND(a.g, b.g)) for i, a in enumerate(vs) for b in vs[:i]) and len(es) == 1, site, 'a displacement is listed twice')
        for v in vs:
            cov = OR(cov, v.g)
            ctx.entail('only-displacements-in-range', AND(pre, v.g), inside, at(e))
            ctx.entail('only-displacements-in-range', AND(pre, v.g), cmp_terms('==', Z, ZERO, True), at(e))
            cut = sweep.stops(v.loops, v.mp, AND(want, v.g))
            ctx.ob('all-displacements-in-range', not cut, at(e), 'listing ends early')
    ctx.ob('all-displacements-in-range', not sat(AND(want, NOT(cov))), site, 'a displacement within the range is missing: ' + witness(AND(want, NOT(cov))))
