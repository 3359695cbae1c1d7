"""Binary Bayes filter map: bounded odds, exact probability, per-cell observation rule, and a cost map that lags by nothing once refreshed."""
from core import *
from numlib import *
import sweep
UNITS = [os.path.join(VERIF, 'harness', 'bbf.cpp'), 'planner_cspace/src/costmap_bbf.cpp']
NS = 'nn_harness::'
BB = 'planner_cspace::bbf::BinaryBayesFilter'
M = 'planner_cspace::planner_3d::CostmapBBFImpl'
EXPLANATION = ('Call sequences on the filter are summarised and compared with the clamped product and the odds/probability maps. The loops of the map are '
               're-expressed per cell (index expressions solved for the induction terms): the new value of a cell is compared with the observation rule, '
               'refresh coverage is compared with the cells an observation writes, using window bounds found to be invariant over all operations.')
ASSUMPTIONS = ['map sizes are positive and the products of coordinates do not overflow', 'the cost map handed in covers the same cells',
               'storage is addressed one-to-one (decided by P06)', 'real arithmetic: float rounding is not modelled']
LO, HI = Fraction(1, 9), Fraction(9)


def rc(v):
    """constants to float accuracy"""
    memo = {}

    def r(c):
        c = Fraction(c)
        a = c.limit_denominator(2000)
        return a if abs(a - c) <= abs(c) * Fraction(1, 10**6) else c

    def st(t):
        if t in memo:
            return memo[t]
        o = t
        if t.op == 'num':
            o = num(r(t.args[0]))
        elif t.op == 'poly':
            o = ZERO
            for m, c in t.args[0]:
                x = num(r(c))
                for b, p in m:
                    y = st(b)
                    for _ in range(abs(p)):
                        x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
                o = t_add(o, x)
        elif t.op in ('fn', 'n8', 'n16'):
            a = [st(x) if isinstance(x, T) else x for x in t.args]
            o = leafof(fn_leaf(a[0], *a[1:])) if t.op == 'fn' else mk(t.op, *a)
            if t in int_terms:
                int_terms.add(o)
        memo[t] = o
        return o

    def at_(a):
        if a.op in ('lt', 'rle', 'le'):
            return lift1(lambda t: cmp_terms('<' if a.op == 'lt' else '<=', t, num(r(a.args[1])), a.op == 'le'), leaf(st(a.args[0])))
        return bvar(a)

    def g(n):
        if n.leaf is not None:
            return n if n.leaf.op in ('true', 'false') else leaf(st(n.leaf))
        return ite(at_(TM.atoms[n.var]), g(n.hi), g(n.lo))
    return g(v)


def check(ctx):
    for part in (odds, whole):
        ctx.part(part)


def clamp(t):
    return ite(cmp_terms('<', t, num(LO), False), leaf(num(LO)), ite(cmp_terms('<=', t, num(HI), False), leaf(t), leaf(num(HI))))


def odds(ctx):
    _, f, p, _ = summary(ctx, NS + 'bf_get')
    if p.leaf is None:
        raise AnchorMissing('odds held by the filter')
    prev = p.leaf
    s = at(ctx.one(BB + '::update'))

    def go(name, rule, site, want, g=TRUE):
        _, f, r, st = summary(ctx, NS + name)
        a = args(f)
        ctx.entail('filter-total', TRUE, st.g, site)
        agree(ctx, rule, site, rc(lib(r)), want(a), g)
    go('bf_update', 'update-is-bounded-product', s, lambda a: clamp(t_mul(prev, a[-1])))
    go('bf_update_get', 'update-keeps-what-it-returns', s, lambda a: clamp(t_mul(prev, a[-1])))
    go('bf_new', 'initial-odds', s, lambda a: leaf(a[0]))
    go('bf_default', 'initial-odds', s, lambda a: leaf(ONE))
    _, f, _, _ = summary(ctx, NS + 'bf_twice')
    a = args(f)
    inner = AND(*[NOT(cmp_terms('==', t_mul(a[0], a[1]), num(b), False)) for b in (LO, HI)])     # both sides agree there: the clamp is continuous
    go('bf_twice', 'update-composes', s, lambda a: lift1(lambda t: clamp(t_mul(t, a[2])), clamp(t_mul(a[0], a[1]))), inner)
    prob = lambda t: t_fdiv(t, t_add(ONE, t))
    go('bf_prob', 'probability-of-odds', at(ctx.one(BB + '::getProbability')), lambda a: leaf(prob(a[0])))
    go('bf_norm', 'normalised-probability', at(ctx.one(BB + '::getNormalizedProbability')),
       lambda a: leaf(t_fdiv(t_sub(prob(a[0]), num(Fraction(1, 10))), num(Fraction(8, 10)))))
    go('bf_back', 'odds-probability-inverse', at(ctx.one('planner_cspace::bbf::oddsToProbability')), lambda a: leaf(a[0]))
    go('bf_noop_cost', 'inactive-map-has-no-cost', at(ctx.one('planner_cspace::planner_3d::CostmapBBFNoOp::getCost')), lambda a: leaf(ZERO))


def reset_hook(I, st, e, d, O, obj):
    """grid.reset(size): recorded (its meaning is decided by P06)"""
    if O is None:
        O = I.lval(obj, st)
    v = I.rv(e['a'][0], st)
    cs = tuple(I.typed(I.freeze(I._getelem(I.getfld(v, 'e_'), num(i))), INT32) for i in range(2))
    I.emit('resize', d['sqn'], st, e['l'], args=cs, obj=O, decl=d)
    return None


class Map(object):
    pass


def interp(ctx):
    return ctx.interp(container_index=GRID, hooks={'planner_cspace::BlockMemGridmap::reset': reset_hook,
                                                   'planner_cspace::BlockMemGridmapBase::reset': reset_hook})


def whole(ctx):
    m = Map()
    fn = {n: ctx.one(M + '::' + n) for n in ('reset', 'clear', 'getCost', 'remember', 'updateCostmap', 'forEach')}
    rec = ctx.p.records[fn['remember'].cls]
    this = mk('this')
    m.hist = mk('fld', this, field_of_type(ctx.p, rec, lambda t: 'Gridmap' in (t.get('qn') or '') and 'Bayes' in str(t), 'filter map'))
    m.cost = mk('fld', this, field_of_type(ctx.p, rec, lambda t: 'Gridmap' in (t.get('qn') or '') and 'Bayes' not in str(t), 'cost map'))
    m.fn = fn
    m.this = this
    X, Y = sweep.cellv(2)
    # sizes as remembered by reset
    I = interp(ctx)
    _, st = I.run(fn['reset'])
    size = par(fn['reset'], 0)
    sz = [mk('elem', mk('fld', size, 'e_'), num(i)) for i in range(2)]
    for z in sz:
        int_terms.add(z)
    site = at(fn['reset'])
    for grid, nm in ((m.hist, 'filter map'), (m.cost, 'cost map')):
        es = [e for e in I.events if e.kind == 'resize' and e.obj.leaf is grid]
        ok = OR(*[AND(e.g, *[eqv(a, leaf(z), True) for a, z in zip(e.args, sz)]) for e in es]) if es else FALSE
        ctx.entail('resize-both-maps', st.g, ok, site, nm)
    held = [k for k in int_fields(ctx, rec, this)]
    m.size = []
    for z in sz:
        c = [k for k in held if I.freeze(I.typed(I.read1(k, st), INT32)) is leaf(z)]
        if not c:
            raise AnchorMissing('size held by the map')
        m.size.append(c[0])
    m.pre = AND(*[cmp_terms('>=', s, ONE, True) for s in m.size])
    m.states = [('reset', st, {s: z for s, z in zip(m.size, sz)})]
    cleared(ctx, m, I, st, 'reset')
    I = interp(ctx)
    _, st = I.run(fn['clear'])
    m.states.append(('clear', st, {}))
    cleared(ctx, m, I, st, 'clear')
    m.held = held
    m.inv = invariant(ctx, m)
    ctx.part(remember, m)
    ctx.part(refresh, m)
    ctx.part(each, m)
    ctx.part(cost, m)


def int_fields(ctx, rec, base):
    """integer scalars held directly in the record or in its vector members"""
    out = []
    for f in rec['fields']:
        t = rec['_tu'].types[f['t']]
        loc = mk('fld', base, f['n'])
        if t.get('c') == 'int':
            out.append(loc)
        elif t.get('c') == 'rec' and 'CyclicVec' in (t.get('qn') or ''):
            for r in [t['rec']]:
                n = next(int(x) for x in ctx.p.records[r]['ta'] if str(x).isdigit()) if ctx.p.records[r].get('ta') else 2
                for i in range(n):
                    out.append(mk('elem', mk('fld', loc, 'e_'), num(i)))
    for o in out:
        int_terms.add(o)
    return out


def cleared(ctx, m, I, st, what):
    site = at(m.fn[what])
    for grid, nm in ((m.hist, 'filter map'), (m.cost, 'cost map')):
        es = [e for e in I.events if e.kind == 'call' and e.name.endswith('::clear') and e.obj is not None and e.obj.leaf is grid]
        g = FALSE
        for e in es:
            v = e.args[0]
            if grid is m.hist:
                u = v.leaf.args[0].val if v.leaf is not None and v.leaf.op == 'recv' else None
                xs = list(u.kids.values()) if u is not None else []
                good = len(xs) == 1 and isinstance(xs[0], N) and rc(xs[0]) is leaf(num(LO))
            else:
                good = v is leaf(ZERO)
            if good:
                g = OR(g, e.g)
        ctx.entail('cleared-to-free', st.g, g, site, nm + ' not cleared to the lowest odds / no cost')


def invariant(ctx, m):
    """linear bounds between one held integer and zero or a size that every operation keeps"""
    cand = []
    for k in m.held:
        if k in m.size:
            continue
        for b in (0, -1):
            cand.append(('>=', k, num(b)))
        for s in m.size:
            for d in (0, -1):
                cand.append(('<=', k, t_add(s, num(d))))
    runs = []
    for name in ('remember', 'updateCostmap'):
        I = interp(ctx)
        _, st = I.run(m.fn[name])
        runs.append((I, st, {}))
    runs += [(None, st, mp) for _, st, mp in m.states]
    while True:
        pre = AND(m.pre, *[cmp_terms(o, k, b, True) for o, k, b in cand])
        keep = []
        for o, k, b in cand:
            ok = True
            for I, st, mp in runs:
                J = interp(ctx)
                v = J.freeze(J.typed(J.read1(k, st), INT32))
                p = subst(AND(m.pre, pre if I is not None else TRUE), mp) if mp else (pre if I is not None else m.pre)
                post = lift1(lambda t: cmp_terms(o, t, subst(b, mp), True), v)
                if sat(AND(p, st.g, NOT(post))):
                    ok = False
                    break
            if ok:
                keep.append((o, k, b))
        if len(keep) == len(cand):
            break
        cand = keep
    m.invs = cand
    return AND(m.pre, *[cmp_terms(o, k, b, True) for o, k, b in cand])


def sweeps(ctx, m, mem=None):
    """cells the refresh operation writes when run from a state: [(visit, event)], and the interpreter"""
    I = interp(ctx)
    _, st = I.run(m.fn['updateCostmap'], mem=mem) if mem is not None else I.run(m.fn['updateCostmap'])
    out = []
    for e, g, loc, el, gl in sweep.stores(I, m.cost):
        loops = list(e.loops)
        for v in sweep.visits([leaf(k) for k in sweep.key_of(el, 2)], g, loops):
            out.append((v, e, loc, el))
    return I, st, out


def inmap(m):
    X, Y = sweep.cellv(2)
    return AND(cmp_terms('>=', X, ZERO, True), cmp_terms('>=', Y, ZERO, True), cmp_terms('<', X, m.size[0], True), cmp_terms('<', Y, m.size[1], True))


def covered(vs, required):
    """required cells reached by the sweep: (uncovered guard, cut-off list)"""
    cov = OR(*[v.g for v, _, _, _ in vs]) if vs else FALSE
    cut = []
    for v, _, _, _ in vs:
        cut += sweep.stops(v.loops, v.mp, AND(required, v.g))
    return AND(required, NOT(cov)), cut


def why(un, cut):
    if sat(un):
        return ': ' + witness(un)
    return ' (cut off at line %s: %s)' % (cut[0][0].line, witness(cut[0][1])) if cut else ''


def remember(ctx, m):
    f = m.fn['remember']
    site = at(f)
    I = interp(ctx)
    _, st = I.run(f)
    cm, ctr, hit, miss, rmin, rmax = [par(f, i) for i in range(6)]
    for t in (rmin, rmax):
        int_terms.add(t)
    c = [mk('elem', mk('fld', ctr, 'e_'), num(i)) for i in range(2)]
    for t in c:
        int_terms.add(t)
    X, Y = sweep.cellv(2)
    dx, dy = t_sub(X, c[0]), t_sub(Y, c[1])
    d2 = t_add(t_mul(dx, dx), t_mul(dy, dy))
    near = AND(cmp_terms('<=', d2, t_mul(rmax, rmax), True), cmp_terms('>=', rmax, ZERO, True),
               *[cmp_terms('<=', t, rmax, True) for d in (dx, dy) for t in (d, t_neg(d))])
    base = AND(m.inv, inmap(m))
    # the observation read
    reads = set()
    rows = []
    rows = sweep.stores(I, m.hist)
    ctx.need('filter updates of an observation', len(rows))
    done = []
    for e, g, loc, el, gl in rows:
        if not any(el is o[1] and e.loops == o[2] and loc is o[0] for o in done):
            done.append((loc, el, e.loops))
    allv = []
    need = written = FALSE
    for loc, el, loops in done:
        loops = list(loops)
        L = loops[-1]
        if L.next is None:
            raise Unsupported('observation loop does not continue')
        mine = [r for r in rows if r[2] is loc]
        for e, g, l2, _, gl in mine:
            if e.loops and e.loops[-1] is L and sat(AND(g, NOT(L.next.g))):
                raise Unsupported('update on a path that leaves the loop')
        keys = [leaf(k) for k in sweep.key_of(el, 2)]
        wg = OR(*[r[1] for r in mine])
        case = OR(*[r[4] for r in mine])
        if sum(1 for o in done if o[2] == tuple(loops) or list(o[2]) == loops) > 1:
            # the place depends on conditions outside the loops: those of the update that do not vary over the loops
            inv = OR(*[r[0].g for r in mine])
            inds = {x.ind for x in loops}
            for a in sorted(dvars(inv)):
                ts = subterms(TM.atoms[a])
                if any(x in inds or x.op in ('elem', 'fld') and cm in subterms(x) for x in ts if isinstance(x, T)):
                    inv = OR(restrict1(inv, a, True), restrict1(inv, a, False))
            case = AND(case, inv)
        new = I.freeze(I.typed(I.read1(loc, L.next), {'c': 'flt', 'b': 32}))
        old = I.freeze(I.typed(I.read1(loc, L.head), {'c': 'flt', 'b': 32}))
        for v in sweep.visits(keys, AND(L.next.g, case), loops):
            w = subst(wg, v.mp)
            nv, ov = subst(new, v.mp), subst(old, v.mp)
            V = AND(base, v.g)
            ctx.entail('update-inside-map', AND(m.inv, v.g, w), inmap(m), site)
            val = observed(cm, [X, Y], [w, nv])
            if val is None:
                ctx.ob('update-follows-observation', False, site, 'the update does not depend on the cost map cell under it')
                continue
            ishit = AND(cmp_terms('==', val, num(100), True), cmp_terms('>=', d2, t_mul(rmin, rmin), True))
            ismiss = AND(cmp_terms('>=', val, ZERO, True), NOT(cmp_terms('==', val, num(100), True)))
            want = ite(AND(near, ishit), lift1(lambda t: clamp(t_mul(t, hit)), ov),
                       ite(AND(near, ismiss), lift1(lambda t: clamp(t_mul(t, miss)), ov), ov))
            agree(ctx, 'update-follows-observation', site, rc(nv), want, V)
            allv.append((v, None, loc, el))
            need = OR(need, AND(base, near, OR(ishit, ismiss)))
            written = OR(written, AND(base, v.g, w))
    un, cut = covered(allv, need)
    ctx.ob('every-observed-cell', not sat(un) and not cut, site, 'a cell that must be updated is not visited' + why(un, cut))
    for i in range(len(allv)):
        for j in range(i):
            ctx.ob('cell-updated-once', not sat(AND(base, allv[i][0].g, allv[j][0].g)), site, 'a cell is updated twice by one observation')
    # cells pending after the observation: those pending before and those written
    _, _, before = sweeps(ctx, m)
    _, _, after = sweeps(ctx, m, st.mem)
    for v, e, loc, el in before:
        un, cut = covered(after, AND(base, v.g))
        ctx.ob('pending-cells-kept', not sat(un) and not cut, site, 'a cell waiting for its refresh is forgotten' + why(un, cut))
    un, cut = covered(after, written)
    ctx.ob('written-cells-pending', not sat(un) and not cut, site, 'an updated cell is not refreshed' + why(un, cut))
    for v, e, loc, el in after:
        ctx.entail('refresh-inside-map', AND(m.inv, v.g), inmap(m), at(m.fn['updateCostmap']))


def observed(cm, cell, vs):
    """the term read from the handed-in cost map at the cell"""
    out = set()
    for v in vs:
        for t in terms_in(v, 'elem'):
            if t.args[1].op == 'vec' and len(t.args[1].args) == 3 and cm in subterms(t.args[0]):
                k = t.args[1].args
                if k[0] is cell[0] and k[1] is cell[1] and k[2] is ZERO:
                    out.add(t)
    if len(out) != 1:
        return None
    t = out.pop()
    int_terms.add(t)
    return t


def refresh(ctx, m):
    f = m.fn['updateCostmap']
    site = at(f)
    I, st, vs = sweeps(ctx, m)
    ctx.need('refresh stores', len(vs))
    for v, e, loc, el in vs:
        ctx.entail('refresh-inside-map', AND(m.inv, v.g), inmap(m), site)
        val = rc(subst(e.val, v.mp))
        X, Y = sweep.cellv(2)
        o = [t for t in terms_in(e.val, 'fld') if sweep.elem_of(t, m.hist) is not None]
        o = [subst(t, v.mp) for t in o]
        if len(set(o)) != 1 or sweep.key_of(sweep.elem_of(o[0], m.hist), 2) != [X, Y]:
            ctx.ob('refresh-value', False, site, 'value %s is not taken from the filter of the same cell' % show(val))
            continue
        od = o[0]
        p = t_fdiv(od, t_add(ONE, od))
        x = t_mul(num(100), t_fdiv(t_sub(p, num(Fraction(1, 10))), num(Fraction(8, 10))))
        want = leaf(nearest(x))
        got = lift1c(lambda t: t.args[0] if t.op in ('n8',) else t, val)
        agree(ctx, 'refresh-value', site, got, want, AND(m.inv, v.g))
    # from construction or reset, nothing is pending that is not also consistent: cost 0 is the value of the lowest odds
    p = LO / (1 + LO)
    ctx.ob('cleared-maps-agree', round((p - Fraction(1, 10)) / Fraction(8, 10) * 100) == 0, site, 'cost of the lowest odds is not zero')


def each(ctx, m):
    f = m.fn['forEach']
    site = at(f)
    I = interp(ctx)
    _, st = I.run(f)
    es = [e for e in I.events if e.kind in ('callval', 'call') and len(e.args) == 2 and sweep_arg(e.args[1], m)]
    ctx.need('visits', len(es))
    vs = []
    for e in es:
        for gl, t in cases(e.args[1]):
            el = sweep.elem_of(t, m.hist)
            for v in sweep.visits([leaf(k) for k in sweep.key_of(el, 2)], AND(e.g, gl), list(e.loops)):
                X, Y = sweep.cellv(2)
                a = e.args[0]
                u = a.leaf.args[0].val if a.leaf is not None and a.leaf.op == 'recv' else None
                if u is not None:
                    got = [subst(I.typed(I.freeze(I._getelem(I.getfld(u, 'e_'), num(i))), INT32), v.mp) for i in range(3)]
                else:
                    got = [subst(comp(a, i), v.mp) for i in range(3)]
                ok = AND(*[eqv(x, leaf(y), True) for x, y in zip(got, (X, Y, ZERO))])
                ctx.entail('visit-position', AND(m.inv, v.g), ok, site, 'position handed over')
                ctx.entail('visit-inside-map', AND(m.inv, v.g), inmap(m), site)
                vs.append((v, e, t, el))
    un, cut = covered(vs, AND(m.inv, inmap(m)))
    ctx.ob('every-cell-visited', not sat(un) and not cut, site, 'a cell is not visited' + why(un, cut))
    for i in range(len(vs)):
        for j in range(i):
            ctx.ob('cell-visited-once', not sat(AND(vs[i][0].g, vs[j][0].g)), site, 'a cell is visited twice')


def sweep_arg(v, m):
    return any(sweep.elem_of(t, m.hist) is not None for t in leaves(v))


def cost(ctx, m):
    f = m.fn['getCost']
    I = interp(ctx)
    r, st = I.run(f)
    p = par(f, 0)
    c = [mk('elem', mk('fld', p, 'e_'), num(i)) for i in range(2)]
    r = I.freeze(r)
    ok = all(sweep.elem_of(t, m.cost) is t and sweep.key_of(t, 2) == c for t in leaves(r))
    ctx.ob('cost-of-cell', ok, at(f), 'returns %s' % show(r))
