"""Two-joint planning model: step validity and cost, estimate, offered steps."""
from core import *
from numlib import *
import sweep
from astar_lib import bool_phis
UNITS = ['planner_cspace/src/grid_astar_model_2dof_joints.cpp']
M = 'planner_cspace::planner_2dof_serial_joints::GridAstarModel2DoFSerialJoint'
EXPLANATION = ('The cost function is summarised; its sampling loop is treated by induction: the place read in iteration i, the condition to go on, '
               'and the growth of the returned cost per iteration are compared with the definition. Offered steps are the pushes of the constructor solved per cell.')
ASSUMPTIONS = ['positive resolution', 'float rounding of the sampling positions is not modelled']


def check(ctx):
    for part in (step, estimate, offered):
        ctx.part(part)


def comps(p, n=2):
    r = [mk('elem', mk('fld', p, 'e_'), num(i)) for i in range(n)]
    for t in r:
        int_terms.add(t)
    return r


def members(ctx, f):
    rec = ctx.p.records[f.cls]
    ty = lambda p: field_of_type(ctx.p, rec, p, 'member')
    this = mk('this')
    coef = mk('fld', this, ty(lambda t: 'CyclicVec' in (t.get('qn') or '')))
    return rec, this, coef


def euclid(coef, d):
    out = leaf(ZERO)
    for k in range(2):
        a = absval(t_mul(mk('elem', mk('fld', coef, 'e_'), num(k)), d[k]))
        out = lift2c(t_add, out, a)
    return out


def ctor_fields(ctx, this):
    """members by the constructor parameter they hold"""
    f = ctx.one(M + '::GridAstarModel2DoFSerialJoint', lambda f: len(f.params) == 5)
    I = ctx.interp(container_index=GRID)
    _, st = I.run(f)
    rec = ctx.p.records[f.cls]
    return f, I, st, rec


def step(ctx):
    f = ctx.one(M + '::cost')
    rec, this, coef = members(ctx, f)
    cf, cI, cst, _ = ctor_fields(ctx, this)
    res = None
    for fd in rec['fields']:
        if rec['_tu'].types[fd['t']].get('c') == 'int':
            loc = mk('fld', this, fd['n'])
            if cI.freeze(cI.typed(cI.read1(loc, cst), INT32)) is leaf(par(cf, 1)):
                res = loc
    if res is None:
        raise AnchorMissing('held resolution')
    int_terms.add(res)
    weight = None
    for fd in rec['fields']:
        t = rec['_tu'].types[fd['t']]
        if t.get('c') == 'rec' and any(g['n'] == 'weight_cost_' for g in ((ctx.p.records.get(t.get('rec')) or {}).get('fields') or [])):
            weight = mk('fld', mk('fld', this, fd['n']), 'weight_cost_')
    if weight is None:
        raise AnchorMissing('cost weight')
    I = ctx.interp(container_index=GRID)
    ret, st = I.run(f)
    ret = lib(I.freeze(ret))
    site = at(f)
    cur, nxt = comps(par(f, 0)), comps(par(f, 1))
    R2 = t_mul(num(2), res)
    pre = cmp_terms('>=', res, ONE, True)
    inside = AND(*[AND(cmp_terms('>=', n, ZERO, True), cmp_terms('<', n, R2, True)) for n in nxt])
    refused = eqv(ret, leaf(num(-1)), None)
    ctx.entail('outside-is-refused', AND(pre, NOT(inside), st.g), refused, site)
    d = [mk('cycs', t_sub(n, c), res) for n, c in zip(nxt, cur)]
    for t in d:
        int_terms.add(t)
    base = euclid(coef, d)
    len2 = t_add(t_mul(d[0], d[0]), t_mul(d[1], d[1]))
    cells = set()
    for L in I.loop_info:
        if L.next is not None:
            vs = [L.next.g] + [I.freeze(I.read1(l, L.next)) for l in L.phis]
            for v in vs:
                cells |= set(t for t in terms_in(v, 'elem') if t.args[1].op == 'vec' and len(t.args[1].args) == 2)
    if not cells and not any(t.args[1].op == 'vec' for e in I.events if e.val is not None and isinstance(e.val, (T, N)) for t in terms_in(e.val, 'elem')):
        ctx.ob('sampled-cells', False, site, 'the cost depends on no cell of the map')
        return
    loops = [L for L in I.loop_info if L.next is not None and any(L.ind in subterms(t) for t in cells)]
    ctx.need('sampling loops', len(loops))
    L = loops[0]
    if len(loops) != 1:
        raise Unsupported('%d sampling loops' % len(loops))
    cells = [t for t in cells if L.ind in subterms(t)]
    if len(cells) != 1:
        ctx.ob('sampled-cells', False, site, '%d cells read per iteration' % len(cells))
        return
    c = cells[0]
    int_terms.add(c)
    # number of samples
    ns = [t for t in terms_in(L.next.g, 'trunc') + terms_in(L.cond if isinstance(L.cond, N) else TRUE, 'trunc') if L.ind not in subterms(t)]
    n = mk('trunc', leafof(fn_leaf('sqrt', len2)))
    ok = any(t is n for t in ns)
    ctx.ob('sample-count', ok, site, 'the number of samples is not the integer part of the step length: %s' % ', '.join(show(t) for t in set(ns)))
    if not ok:
        return
    int_terms.add(n)
    G = AND(pre, inside)
    ctx.entail('sample-count', AND(G, L.body_g), cmp_terms('<', L.ind, n, True), site, 'too many samples')
    flags = [b for b in bool_phis(ret) + bool_phis(L.next.g) + bool_phis(L.body_g) if b.args[0] == L.id]
    anyflag, newflag = FALSE, FALSE
    lethal = cmp_terms('>', c, num(99), True)
    G = AND(G, OR(cmp_terms('<', n, ONE, True), *[NOT(cmp_terms('==', t, ZERO, True)) for t in d]))
    in_loop = AND(G, cmp_terms('>=', L.ind, ZERO, True), cmp_terms('<', L.ind, n, True))
    # places
    for k, t in enumerate(c.args[1].args):
        want = mk('cycu', nearest(t_add(cur[k], t_mul(L.ind, t_fdiv(d[k], n)))), res)
        got = lib(leaf(t))
        agree(ctx, 'sampled-cells', site, got, leaf(want), in_loop, 'axis %d' % k)
    for b in dict.fromkeys(flags):
        nv = I.freeze(I.read1(b.args[1], L.next))
        if I.freeze(I.read1(b.args[1], L.entry)) is not FALSE:
            raise Unsupported('flag of the sampling loop does not start false')
        ctx.entail('flag-means-lethal', AND(in_loop, L.next.g, NOT(bvar(b)), nv), lethal, site)
        ctx.entail('flag-stays', AND(in_loop, L.next.g, bvar(b)), nv, site)
        anyflag, newflag = OR(anyflag, bvar(b)), OR(newflag, nv)
    ctx.entail('lethal-sample-stops', AND(G, L.next.g, lethal), newflag, site)
    ctx.entail('free-sample-goes-on', AND(in_loop, L.head.g, NOT(lethal), NOT(anyflag)), AND(L.next.g, NOT(newflag)), site)
    # result by induction over the samples
    ctx.entail('refused-on-lethal', AND(G, st.g, OR(anyflag, cmp_terms('<', L.ind, n, True))), refused, site, 'a step over a lethal sample is accepted')
    G = AND(G, NOT(anyflag))
    fin = possible(ret, AND(G, cmp_terms('>=', L.ind, n, True), last_iteration(I)))
    ph = [t for t in terms_in(fin, 'phi') if t.args[0] == L.id]
    entry = {t: value(I, t, L.entry) for t in ph}
    nxt = {t: value(I, t, L.next) for t in ph}
    e = substn(subst(fin, {L.ind: ZERO}), entry)
    agree(ctx, 'cost-without-samples', site, lib(e), base, G)
    diff = lift2c(t_sub, substn(fin, nxt), fin)
    agree(ctx, 'cost-per-sample', site, lib(diff), leaf(t_fdiv(t_mul(c, weight), num(100))), AND(G, in_loop, NOT(lethal)))


def value(I, phi, st):
    return I.freeze(I.typed(I.read1(phi.args[1], st), {'c': 'flt', 'b': 64}))


def substn(v, mp):
    """terms of v replaced by guarded values"""
    for t, x in mp.items():
        v = _sub1(v, t, x)
    return v


def _sub1(v, t, x):
    def rec(n):
        if n.leaf is not None:
            return subst(v, {t: n.leaf})
        return ite(TM.bvar(atoms[n.var]), rec(n.hi), rec(n.lo))
    return rec(x)


def possible(v, g):
    """value restricted to the cases possible under g"""
    def rec(n, gg):
        if n.leaf is not None:
            return n
        a = TM.bvar(atoms[n.var])
        hi, lo = AND(gg, a), AND(gg, NOT(a))
        if not sat(hi):
            return rec(n.lo, lo)
        if not sat(lo):
            return rec(n.hi, hi)
        return ite(a, rec(n.hi, hi), rec(n.lo, lo))
    return rec(v, g)


def estimate(ctx):
    f = ctx.one(M + '::costEstim')
    rec, this, coef = members(ctx, f)
    I = ctx.interp()
    ret, st = I.run(f)
    cur, goal = comps(par(f, 0)), comps(par(f, 1))
    agree(ctx, 'estimate-is-weighted-displacement', at(f), lib(I.freeze(ret)), euclid(coef, [t_sub(b, a) for a, b in zip(cur, goal)]))


def offered(ctx):
    f, I, st, rec = ctor_fields(ctx, mk('this'))
    site = at(f)
    lst = mk('fld', mk('this'), field_of_type(ctx.p, rec, lambda t: (t.get('qn') or '').startswith('std::vector'), 'offered steps'))
    r = par(f, 4)
    int_terms.add(r)
    X, Y = sweep.cellv(2)
    pre = cmp_terms('>=', r, ZERO, True)
    want = AND(pre, *[AND(cmp_terms('>=', t, t_neg(r), True), cmp_terms('<=', t, r, True)) for t in (X, Y)])
    es = [e for e in I.events if e.kind == 'push' and e.obj is not None and e.obj.leaf is lst]
    ctx.need('offered step pushes', len(es))
    vs = []
    for e in es:
        u = e.args[0].leaf.args[0].val
        keys = [I.typed(I.freeze(I._getelem(I.getfld(u, 'e_'), num(i))), INT32) for i in range(2)]
        vs += [(v, e) for v in sweep.visits(keys, e.g, list(e.loops))]
    cov = OR(*[v.g for v, _ in vs]) if vs else FALSE
    ctx.ob('full-square-offered', not sat(AND(want, NOT(cov))), site, 'a step of the square is not offered: ' + witness(AND(want, NOT(cov))))
    for v, e in vs:
        ctx.entail('only-square-offered', AND(pre, v.g), want, at(e))
        cut = sweep.stops(v.loops, v.mp, AND(want, v.g))
        ctx.ob('full-square-offered', not cut, at(e), 'offering ends early')
    for f2 in ('searchGrids',):
        g = ctx.one(M + '::' + f2)
        I = ctx.interp()
        r, st = I.run(g)
        ctx.ob('offers-the-square', refers(I, r) is lst, at(g), 'does not return the offered steps')


def refers(I, r):
    r = I.freeze(r) if r is not None else None
    return r.leaf if r is not None else None
