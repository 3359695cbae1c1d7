"""Polygons of the robot outline: even-odd membership, distance, rigid motion, radius, construction."""
from core import *
from numlib import *
from rosmodel import xml_hooks, quiet_call
from t04 import lsda, sub2
import eigen_model as EM
UNITS = ['costmap_cspace/src/costmap_3d.cpp', 'safety_limiter/src/safety_limiter.cpp']
EXPLANATION = ('Every polygon class is summarised: the membership test as the parity of a counter over all edges with the crossing guard of one arbitrary edge compared with the half-open rule '
               '(case split on the direction of the edge, exact in the slope), the distance as the minimum over all edges, the motion as a rotation and shift of every vertex, the radius as the farthest vertex.')
ASSUMPTIONS = ['the outline is closed (last vertex equals the first), as construction ensures', 'real arithmetic']
CC = 'costmap_cspace::Polygon'


def check(ctx):
    cl = sorted({f.cls for f in ctx.p.funcs.values() if f.cls and f.cls.split('::')[-1].lower() == 'polygon' and f.name == 'inside'})
    ctx.need('polygon classes', len(cl), 2)
    for c in cl:
        ctx.part(inside, c)
        ctx.part(dist, c)
        ctx.part(move, c)
        if any(f.cls == c and f.name == 'radius' for f in ctx.p.funcs.values()):
            ctx.part(radius, c)
    ctx.part(construct, CC)


def run(ctx, f, hooks=None):
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    I = ctx.interp()
    if hooks:
        I.hooks.update(hooks)
    r, st = I.run(f)
    return I, (I.freeze(r) if r is not None else None), st


def vertices(I, f):
    """the vertex list: the location v with terms v[k].c in the function"""
    out = set()
    for e in I.events:
        for x in [e.g, e.loc, e.val] + list(e.args or []):
            if isinstance(x, (T, N)):
                for t in terms_in(x, 'elem'):
                    if t.args[0].op == 'fld' and rootloc(t.args[0]).op == 'this' and t.args[0].args[1] != 'c':
                        out.add(t.args[0])
    out = {t for t in out if not any(t is not u and t in subterms(u) for u in out)} if len(out) > 1 else out
    if len(out) != 1:
        raise AnchorMissing('%s: %d vertex lists' % (f.qn, len(out)))
    return out.pop()


def size_term(v):
    n = mk('fld', v, '#size')
    IN.int_terms.add(n)
    return n


def coord(v, k, i):
    return mk('elem', mk('fld', mk('elem', v, k), 'c'), num(i))


def loop_of(ctx, rule, I, f, n=1):
    ls = [l for l in I.loop_info if l.next is not None]
    ctx.ob(rule, len(ls) == n, at(f), '%d loops' % len(ls))
    return ls[0] if len(ls) == n else None


def indices(x, v):
    return sorted({t.args[1] for t in terms_in(x, 'elem') if t.args[0] is v}, key=show)


def edges(ctx, rule, f, I, l, v, used):
    """the two vertices of the edge of one iteration, every edge taken exactly once; returns (a, b) terms"""
    n = size_term(v)
    used, wrapped = unwrap(I, l, v, used)
    wrapped = unU(wrapped) if wrapped is not None else None
    ks = indices(used, v)
    ctx.ob(rule, len(ks) == 2, at(f), 'an edge is made of vertices %s' % ', '.join(show(k) for k in ks))
    if len(ks) != 2:
        return None
    a, b = ks
    if t_sub(a, b) is ONE:
        a, b = b, a
    ctx.ob(rule, t_sub(b, a) is ONE, at(f), 'an edge joins vertices %s and %s' % (show(a), show(b)))
    if t_sub(b, a) is not ONE:
        return None
    if wrapped is not None:
        # the first iteration takes the edge from vertex `wrapped` to the first one: of no length for a closed outline
        ctx.ob(rule, b is l.ind and (wrapped is t_sub(n, ONE)), at(f), 'the first edge joins vertices %s and %s' % (show(wrapped), show(subst(b, {l.ind: ZERO}))))
        if not (b is l.ind and wrapped is t_sub(n, ONE)):
            return None
        ctx.entail(rule, AND(cmp_terms('>=', n, num(2), True), exit_guard(l)), cmp_terms('>=', b, n, True), at(f), 'edges are left out')
        return a, b
    many = cmp_terms('>=', n, num(2), True)
    i0 = subst(a, {l.ind: ZERO})
    step = t_sub(subst(a, {l.ind: t_add(l.ind, ONE)}), a)
    g = AND(many, cmp_terms('>=', l.ind, ZERO, True))
    out = exit_guard(l)
    last = t_sub(n, num(2))
    if step is ONE:
        ctx.ob(rule, i0 is ZERO, at(f), 'edges are taken from vertex %s on' % show(i0))
        ctx.entail(rule, AND(g, out), cmp_terms('>', a, last, True), at(f), 'edges are left out')
        ctx.ob(rule, within(l, AND(g, l.body_g), a, cmp_terms('<=', a, last, True)), at(f), 'more edges than there are')
    elif step is num(-1):
        ctx.ob(rule, i0 is last, at(f), 'edges are taken from vertex %s down' % show(i0))
        ctx.entail(rule, AND(g, out), cmp_terms('<', a, ZERO, True), at(f), 'edges are left out')
        ctx.ob(rule, within(l, AND(g, l.body_g), a, cmp_terms('>=', a, ZERO, True)), at(f), 'more edges than there are')
    else:
        ctx.ob(rule, False, at(f), 'the edges are stepped by %s' % show(step))
    return a, b


def unwrap(I, l, v, used):
    """a counter that follows the loop counter one iteration late is the loop counter less one after the first iteration"""
    for k in indices(used, v):
        if k.op == 'phi':
            loc = phi_loc(I, l, k)
            if loc is None:
                continue
            e0 = I.freeze(I.read1(loc, l.entry)).leaf
            nx = I.freeze(I.read1(loc, l.next)).leaf
            if e0 is not None and nx is l.ind:
                return subst(used, {k: t_sub(l.ind, ONE)}), e0
    return used, None


def within(l, g, a, bound):
    """the index stays within its bound: directly, or by induction over the iterations"""
    if entails(g, bound):
        return True
    first = {l.ind: ZERO}
    nxt = {l.ind: t_add(l.ind, ONE)}
    return entails(subst(g, first), subst(bound, first)) and entails(AND(g, bound, subst(g, nxt)), subst(bound, nxt))


def exit_guard(l):
    g = FALSE
    for x in l.exits:
        if x is not None:
            g = OR(g, x.g)
    return g


def early(ctx, rule, f, I, l):
    rs = [e for e in I.events if e.kind == 'return' and e.name == f.qn and l in e.loops]
    ctx.ob(rule, not rs, at(rs[0]) if rs else at(f), 'the result is returned before all edges were seen')
    return not rs


def phi_loc(I, l, p):
    for loc in l.phis:
        h = I.freeze(I.read1(loc, l.head))
        if isinstance(h, N) and (h.leaf is p if h.leaf is not None else (atoms[h.var] is p and h is bvar(p))):
            return loc
    return None


def inside(ctx, c):
    f = ctx.one(c + '::inside')
    I, r, st = run(ctx, f)
    l = loop_of(ctx, 'inside-parity', I, f)
    if l is None or not early(ctx, 'inside-parity', f, I, l):
        return
    P = sorted({t for t in subterms(r) if isinstance(t, T) and t.op == 'phi'}, key=show)
    ctx.ob('inside-parity', len(P) == 1, at(f), 'the result depends on %s' % ', '.join(show(t) for t in P))
    if len(P) != 1:
        return
    p = P[0]
    loc = phi_loc(I, l, p)
    ctx.ob('inside-parity', loc is not None, at(f), 'the result is not counted over the edges')
    if loc is None:
        return
    e0 = I.freeze(I.read1(loc, l.entry))
    nx = I.freeze(I.read1(loc, l.next))
    live = AND(l.body_g, l.next.g)
    if any(leaf_.op in ('true', 'false') for leaf_ in leaves(nx)):
        odd = e0.leaf is not None and e0.leaf.op in ('true', 'false')
        ctx.ob('inside-parity', odd, at(f), 'the parity starts from %s' % show(e0))
        if not odd:
            return
        X = ite(bvar(p), NOT(nx), nx)       # toggled
        v = p
        Xt, Xf = restrict1(X, atom_var(p), True), restrict1(X, atom_var(p), False)
        ctx.ob('inside-parity', Xt is Xf or entails(live, IFF(Xt, Xf)), at(f), 'the parity is not toggled by a crossing')
        X = Xf
        par_of = [restrict1(r, atom_var(p), bool(k)) for k in (0, 1)]
        start = 0 if e0 is FALSE else 1
    else:
        ctx.ob('inside-parity', e0.leaf is not None and isnum(e0.leaf) , at(f), 'the count starts from %s' % show(e0))
        if e0.leaf is None or not isnum(e0.leaf):
            return
        start = int(e0.leaf.args[0])
        X = FALSE
        for g, t in cases(nx):
            d = t_sub(t, p)
            ok = isnum(d) and d.args[0] == int(d.args[0])
            ctx.ob('inside-parity', ok, at(f), 'the count becomes %s' % show(t))
            if not ok:
                return
            if int(d.args[0]) % 2:
                X = OR(X, g)
        par_of = []
        for k in range(-3 if start < 0 else 0, 4):
            q = subst(r, {p: num(k)})
            par_of.append((k, simplify_bits(q, k)))
        base = [q for k, q in par_of if k % 2 == 0]
        odd = [q for k, q in par_of if k % 2 == 1]
        same_ = all(q is base[0] for q in base) and all(q is odd[0] for q in odd)
        ctx.ob('inside-parity', same_, at(f), 'the result is not the parity of the count: %s' % ', '.join('%d:%s' % (k, show(q)[:60]) for k, q in par_of))
        if not same_:
            return
        par_of = [base[0], odd[0]]
    ctx.ob('inside-parity', par_of[start % 2] is FALSE and par_of[1 - start % 2] is TRUE, at(f), 'the point is taken as inside after an even number of crossings')
    v = vertices(I, f)
    ab = edges(ctx, 'inside-every-edge', f, I, l, v, X)
    X = unwrap(I, l, v, X)[0]
    if ab is None:
        return
    a, b = ab
    A = [coord(v, a, i) for i in range(2)]
    B = [coord(v, b, i) for i in range(2)]
    pt = mk('fld', par(f, 0), 'c')
    q = [mk('elem', pt, num(i)) for i in range(2)]
    D, M = mk('par', 'rise'), mk('par', 'slope')
    okc = []
    eq = subst(X, {B[1]: A[1]})
    flat_ok = not sat(AND(subst(live, {B[1]: A[1]}), eq))
    ctx.ob('inside-crossing', flat_ok, at(f), 'a horizontal edge counts as a crossing: %s' % (witness(AND(live, eq))[:200] if not flat_ok else ''))
    mp = {B[1]: t_add(A[1], D), B[0]: t_add(A[0], t_mul(D, M))}
    Xs = [factor(subst(X, mp), D, s) for s in (1, -1)]
    lv = subst(live, mp)
    lx = t_add(A[0], t_mul(M, t_sub(q[1], A[1])))
    best = first = None
    for lo in ('<=', '<'):
        for side in ('<', '>'):
            bad = None
            for s in (1, -1):
                y0, y1 = (A[1], t_add(A[1], D)) if s > 0 else (t_add(A[1], D), A[1])
                hi = '<' if lo == '<=' else '<='
                within = AND(cmp_terms(lo, y0, q[1], False), cmp_terms(hi, q[1], y1, False))
                pos = cmp_terms('>', D, ZERO, False) if s > 0 else cmp_terms('<', D, ZERO, False)
                got = Xs[0 if s > 0 else 1]
                # points on the edge itself may count either way
                diffs = []
                for strict in (side, side + '='):
                    want = AND(within, cmp_terms(strict, q[0], lx, False))
                    d = AND(pos, lv, OR(AND(got, NOT(want)), AND(want, NOT(got))))
                    diffs.append(d if sat(d) else FALSE)
                if all(d is not FALSE for d in diffs):
                    bad = diffs[0]
                    break
            if bad is None:
                best = (lo, side)
                break
            if first is None:
                first = bad
        if best:
            break
    ctx.ob('inside-crossing', best is not None, at(f), 'an edge does not count by the half-open rule, e.g. when %s' % (witness(first)[:300] if best is None else ''))


def simplify_bits(q, k):
    """the guarded truth value with bit operations on constants evaluated"""
    mp = {}
    for t in terms_in(q, 'bits'):
        xs = [x for x in t.args[1:] if isinstance(x, T)]
        if t.args[0] == '&' and all(isnum(x) for x in xs):
            z = -1
            for x in xs:
                z &= int(x.args[0])
            mp[t] = num(z)
    for t in terms_in(q, 'mod') + terms_in(q, 'imod'):
        xs = t.args
        if all(isinstance(x, T) and isnum(x) for x in xs):
            y, m = int(xs[0].args[0]), int(xs[1].args[0])
            mp[t] = num(abs(y) % abs(m) * (1 if y >= 0 else -1))
    return subst(q, mp) if mp else q


def factor(g, D, s):
    """comparisons divided by powers of the positive (s=1) or negative factor D they share"""
    mp = {}

    def go(n):
        if n.leaf is not None:
            return n
        if n.id in mp:
            return mp[n.id]
        a = TM.atoms[n.var]
        r = bvar(a)
        if a.op in ('lt', 'rle'):
            p = topoly(t_sub(a.args[0], num(a.args[1])))
            w = [dict(m).get(D, 0) for m in p]
            k = min(w) if w else 0
            if k:
                t = ZERO
                for m, c in p.items():
                    x = num(c)
                    for base, e in m:
                        e2 = e - k if base is D else e
                        for _ in range(abs(e2)):
                            x = t_mul(x, base) if e2 > 0 else t_fdiv(x, base)
                    t = t_add(t, x)
                op = '<' if a.op == 'lt' else '<='
                r = cmp_terms(op, t, ZERO, False) if s > 0 or k % 2 == 0 else cmp_terms(op, t_neg(t), ZERO, False)
        x = ite(r, go(n.hi), go(n.lo))
        mp[n.id] = x
        return x
    return go(g)


def dist(ctx, c):
    f = ctx.one(c + '::dist')
    I, r, st = run(ctx, f)
    l = loop_of(ctx, 'distance-minimum', I, f)
    if l is None or not early(ctx, 'distance-minimum', f, I, l):
        return
    p = r.leaf
    loc = phi_loc(I, l, p) if p is not None and p.op == 'phi' else None
    ctx.ob('distance-minimum', loc is not None, at(f), 'the distance is %s' % show(r)[:200])
    if loc is None:
        return
    e0 = I.freeze(I.read1(loc, l.entry))
    nx = I.freeze(I.read1(loc, l.next))
    big = e0.leaf is not None and (e0.leaf.op == 'inf' or show(e0) in ('inf', 'INF') or (isnum(e0.leaf) and e0.leaf.args[0] >= 10**30))
    ctx.ob('distance-minimum', big, at(f), 'the minimum starts from %s' % show(e0)[:100])
    v = vertices(I, f)
    ab = edges(ctx, 'distance-every-edge', f, I, l, v, nx)
    nx = unwrap(I, l, v, nx)[0]
    if ab is None:
        return
    pt = mk('fld', par(f, 0), 'c')
    q = [mk('elem', pt, num(i)) for i in range(2)]
    A, B = [[coord(v, k, i) for i in range(2)] for k in ab]
    d = lsda(A, B, q)
    want = lift2c(lambda x, y: ite(cmp_terms('<', y, x, False), leaf(y), leaf(x)), leaf(p), d)
    rel_ = {}
    for k, t in enumerate(B):
        rel_[t] = t_add(A[k], mk('par', 'b.%d' % k))
    for k, t in enumerate(q):
        rel_[t] = t_add(A[k], mk('par', 'q.%d' % k))
    off = AND(*[OR(cmp_terms('<', x, ZERO, False), cmp_terms('<', t_neg(x), ZERO, False)) for x in
                (EM.dot(sub2(B, A), sub2(q, A)), EM.dot(sub2(A, B), sub2(q, B)))])   # the distance is continuous where the foot is an end point
    agree(ctx, 'distance-minimum', at(f), subst(lib(nx), rel_), subst(want, rel_), AND(subst(AND(l.body_g, l.next.g), rel_), subst(off, rel_)))


def own(I, l, v, t):
    """vertex of the current iteration as it was before the loop"""
    mp = {}
    for x in subterms(t):
        if isinstance(x, T) and x.op == 'elem' and x.args[0].op == 'phi':
            mp[x] = mk('elem', v, x.args[1])
    return subst(t, mp) if mp else t


def every_vertex(ctx, rule, f, l, v, k):
    n = size_term(v)
    i0 = subst(k, {l.ind: ZERO})
    step = t_sub(subst(k, {l.ind: t_add(l.ind, ONE)}), k)
    g = cmp_terms('>=', l.ind, ZERO, True)
    out = exit_guard(l)
    if step is num(-1):
        ctx.ob(rule, i0 is t_sub(n, ONE), at(f), 'vertices are taken from %s down' % show(i0))
        ctx.entail(rule, AND(g, out), cmp_terms('<', k, ZERO, True), at(f), 'vertices are left out')
        return
    ctx.ob(rule, step is ONE and i0 is ZERO, at(f), 'vertices are taken from %s in steps of %s' % (show(i0), show(step)))
    ctx.entail(rule, AND(g, out), cmp_terms('>=', k, n, True), at(f), 'vertices are left out')


def move(ctx, c):
    f = ctx.one(c + '::move')
    I, r, st = run(ctx, f)
    l = loop_of(ctx, 'motion', I, f)
    if l is None or not early(ctx, 'motion', f, I, l):
        return
    es = [e for e in I.events if e.kind == 'store' and e.loc is not None and l in e.loops and any(rootloc(t).op == 'this' for g, t in cases(e.loc))]
    locs = {t for e in es for g, t in cases(e.loc) if rootloc(t).op == 'this'}
    vs = {t.args[0].args[0] for t in locs if t.op == 'elem' and t.args[0].op == 'fld' and t.args[0].args[0].op == 'elem'}
    ctx.ob('motion', len(vs) == 1 and len(locs) == 2, at(f), 'components %s change' % ', '.join(sorted(show(t) for t in locs)))
    if len(vs) != 1 or len(locs) != 2:
        return
    el = vs.pop()
    v, k = el.args
    every_vertex(ctx, 'motion', f, l, v, k)
    old = [coord(v, k, i) for i in range(2)]
    y = [mk('par', 'x'), mk('par', 'y')]
    ps = args(f)
    for i in range(2):
        loc = coord(v, k, i)
        nx = I.freeze(I.read1(loc, l.next))
        nx = rewrite_own(I, nx, v)
        th = [scalar_of(nx, t) for t in ps]
        co, si = leafof(fn_leaf('cos', th[2])), leafof(fn_leaf('sin', th[2]))
        want = t_add(t_sub(t_mul(co, old[0]), t_mul(si, old[1])), th[0]) if i == 0 else t_add(t_add(t_mul(si, old[0]), t_mul(co, old[1])), th[1])
        agree(ctx, 'motion', at(f), lib(nx), leaf(want), AND(l.body_g, l.next.g))


def scalar_of(nx, p):
    """the scalar read through reference parameter p (whatever its width)"""
    c = [t for t in subterms(nx) if isinstance(t, T) and t is not p and p in t.args and t.op not in ('poly', 'fn')]
    c = sorted(c, key=show)
    return c[0] if c else p


def rewrite_own(I, nx, v):
    mp = {}
    for x in subterms(nx):
        if isinstance(x, T) and x.op == 'elem' and isinstance(x.args[0], T) and x.args[0].op == 'phi':
            mp[x] = mk('elem', v, x.args[1])
    return subst(nx, mp) if mp else nx


def radius(ctx, c):
    f = ctx.one(c + '::radius')
    I, r, st = run(ctx, f)
    l = loop_of(ctx, 'radius', I, f)
    if l is None or not early(ctx, 'radius', f, I, l):
        return
    p = r.leaf
    loc = phi_loc(I, l, p) if p is not None and p.op == 'phi' else None
    ctx.ob('radius', loc is not None, at(f), 'the radius is %s' % show(r)[:200])
    if loc is None:
        return
    e0 = I.freeze(I.read1(loc, l.entry))
    nx = I.freeze(I.read1(loc, l.next))
    ctx.ob('radius', e0 is leaf(ZERO), at(f), 'the maximum starts from %s' % show(e0)[:100])
    v = vertices(I, f)
    ks = indices(nx, v)
    ctx.ob('radius', len(ks) == 1, at(f), 'vertices %s' % ', '.join(show(k) for k in ks))
    if len(ks) != 1:
        return
    k = ks[0]
    every_vertex(ctx, 'radius', f, l, v, k)
    x, y = [coord(v, k, i) for i in range(2)]
    d = leafof(fn_leaf('sqrt', t_add(t_mul(x, x), t_mul(y, y))))
    want = ite(cmp_terms('<', p, d, False), leaf(d), leaf(p))
    agree(ctx, 'radius', at(f), lib(nx), want, AND(l.body_g, l.next.g))


def flatc(I, v):
    from s03 import flat
    xs = flat(v)
    if len(xs) == 1 and isinstance(xs[0], N) and xs[0].leaf is not None and xs[0].leaf.op == 'recv':
        xs = flat(xs[0].leaf.args[0].val)
    return [leaf(x) if isinstance(x, T) else I.freeze(x) for x in xs]


def construct(ctx, c):
    fs = [f for f in ctx.p.funcs.values() if f.cls == c and f.kind == 'ctor' and len(f.params) == 1 and 'XmlRpc' in f.tu.types[f.params[0]['t']].get('s', str(f.tu.types[f.params[0]['t']]))]
    if len(fs) != 1:
        raise AnchorMissing('%d constructors from the parameter' % len(fs))
    f = fs[0]
    I, r, st = run(ctx, f, xml_hooks())
    pushes = [e for e in I.events if e.kind == 'push']
    site = at(f)
    inl = [e for e in pushes if e.loops]
    last = [e for e in pushes if not e.loops]
    ok = len(inl) == 1 and len(last) == 1
    ctx.ob('outline-as-configured', ok, site, '%d vertices per parameter entry and %d further ones' % (len(inl), len(last)))
    if not ok:
        return
    e, l = inl[0], inl[0].loops[-1]
    cs = flatc(I, e.args[0])
    ctx.ob('outline-as-configured', len(cs) == 2, at(e), 'a vertex has %d components' % len(cs))
    nums = sorted({t for x in cs for t in terms_in(x, 'fld') if t.args[1] == '#num'}, key=show)
    ctx.ob('outline-as-configured', len(nums) == 2 and len(cs) == 2, at(e), 'a vertex is %s' % ', '.join(show(x)[:80] for x in cs))
    if len(nums) != 2 or len(cs) != 2:
        return
    raw = nums[0].args[0].args[0].args[0]
    n = mk('fld', raw, '#size')
    IN.int_terms.add(n)
    k = nums[0].args[0].args[0].args[1]
    for i in range(2):
        want = mk('fld', mk('elem', mk('elem', raw, k), num(i)), '#num')
        agree(ctx, 'outline-as-configured', at(e), cs[i], leaf(want), e.g)
    i0 = subst(k, {l.ind: ZERO})
    ctx.ob('outline-as-configured', i0 is ZERO and t_sub(k, l.ind) is ZERO, site, 'vertices are read from entry %s' % show(k))
    ctx.entail('outline-as-configured', AND(l.body_g, l.next.g), e.g, at(e), 'a vertex is left out')
    for x in l.exits:
        if x is not None and x.g is not FALSE:
            ctx.entail('outline-as-configured', AND(x.g, cmp_terms('>=', l.ind, ZERO, True)), cmp_terms('>=', k, n, True), site, 'vertices are left out')
    z = I.freeze(last[0].args[0])
    ok = z.leaf is not None and z.leaf.op == 'elem' and z.leaf.args[1] is ZERO
    ctx.ob('outline-closed', ok and last[0].seq > e.seq, at(last[0]), 'the outline is closed by %s' % show(z)[:200])
    ctx.entail('outline-closed', st.g, last[0].g, at(last[0]), 'the outline may stay open')
    few = cmp_terms('<', n, num(3), True)
    ctx.ob('outline-valid', not sat(AND(st.g, few)), site, 'an outline of less than three vertices is accepted')
