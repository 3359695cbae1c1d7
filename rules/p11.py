"""Rotation cache: every cached motion and radius pair is found again, and equals its definition."""
from core import *
from numlib import *
import sweep
from p05 import symmod, residue
UNITS = ['planner_cspace/src/rotation_cache.cpp', 'planner_cspace/src/motion_cache.cpp']
R = 'planner_cspace::planner_3d::RotationCache'
MC = 'planner_cspace::planner_3d::MotionCache'
EXPLANATION = ('The accessors are evaluated in the state left by one iteration of the filling loops; their index expression and the written one are matched as mixed-radix '
               'numbers, which gives the iteration that fills a requested entry; its value is compared with the definition by exact rational functions of sine and cosine.')
ASSUMPTIONS = ['non-negative range, positive resolutions', 'real arithmetic: float rounding is not modelled']
TWO_PI = 2 * PI


def check(ctx):
    for part in (rotation, lookups):
        ctx.part(part)


class Trig(Rat):
    """rational functions with cos^2 = 1 - sin^2"""

    def reduce(self, P):
        P = Rat.reduce(self, P)
        while True:
            out, again = {}, {}
            for m, c in P.items():
                hit = next((ap for ap in m if ap[0].op == 'fn' and ap[0].args[0] == 'cos' and ap[1] >= 2), None)
                if hit is None:
                    out[m] = out.get(m, 0) + c
                    continue
                rest = tuple(x for x in m if x is not hit)
                if hit[1] > 2:
                    rest = TM._mmul(rest, ((hit[0], hit[1] - 2),))
                s = self.canon(leafof(fn_leaf('sin', hit[0].args[1])))
                again = pa2(again, {rest: c})
                again = pa2(again, pm({rest: -c}, {((s, 2),): Fraction(1)}))
            if not again:
                return {m: c for m, c in out.items() if c != 0}
            P = pa2(out, again)


def pa2(a, b):
    return TM.padd(a, b, 1)


def turns(v):
    """whole turns inside sine and cosine dropped"""
    memo = {}

    def st(t):
        if t in memo:
            return memo[t]
        r = t
        if t.op == 'poly':
            r = ZERO
            for m, c in t.args[0]:
                x = num(c)
                for b, p in m:
                    y = st(b)
                    for _ in range(abs(p)):
                        x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
                r = t_add(r, x)
        elif t.op == 'fn':
            a = [st(x) if isinstance(x, T) else x for x in t.args]
            if a[0] in ('sin', 'cos', 'tan'):
                c = topoly(a[1]).get((), Fraction(0))
                k = round(c / TWO_PI)
                if k and abs(c - k * TWO_PI) < Fraction(1, 10**4):
                    a[1] = t_sub(a[1], num(c))
            r = leafof(fn_leaf(a[0], *a[1:]))
            if a[0] == 'tan':
                r = t_fdiv(leafof(fn_leaf('sin', a[1])), leafof(fn_leaf('cos', a[1])))
            if a[0] == 'pow' and a[2].op == 'num' and a[2].args[0] == 2:
                r = t_mul(a[1], a[1])
        memo[t] = r
        return r

    def g(n):
        if n.leaf is not None:
            return n if n.leaf.op in ('true', 'false') else leaf(st(n.leaf))
        a = atoms[n.var]
        b = cmp_terms('<' if a.op == 'lt' else '<=', st(a.args[0]), num(a.args[1]), False) if a.op in ('lt', 'rle') else TM.bvar(a)
        return ite(b, g(n.hi), g(n.lo))
    return g(v)


def rotation(ctx):
    f = ctx.one(R + '::reset')
    site = at(f)
    I = ctx.interp()
    _, st = I.run(f)
    lin, ang, rng = [par(f, i) for i in range(3)]
    int_terms.add(rng)
    n = nearest(t_fdiv(num(TWO_PI), ang))
    ns = [t for L in I.loop_info for t in terms_in(L.body_g, 'fn', 'round')]
    angle = next((t for t in ns if Rat().eq(t.args[1], n.args[1]) or near(t.args[1], n.args[1])), None)
    if angle is None:
        ctx.ob('page-per-angle', False, site, 'the number of pages is not the rounded number of steps in a turn')
        return
    int_terms.add(angle)
    pages = mk('fld', mk('this'), field_of_type(ctx.p, ctx.p.records[f.cls], lambda t: (t.get('qn') or '').startswith('std::vector'), 'pages'))
    rs = [e for e in evs(I, 'resize') if e.obj is not None and e.obj.leaf is pages]
    ctx.need('page resizes', len(rs))
    ctx.entail('page-per-angle', st.g, OR(*[AND(e.g, cmpv('==', lift1c(unU, e.args[0]), leaf(angle), True)) for e in rs]), site)
    span = t_add(t_mul(num(2), rng), ONE)
    C = sweep.cellv(3)
    dom = AND(cmp_terms('>=', rng, ZERO, True), cmp_terms('>=', angle, ONE, True), *[AND(cmp_terms('>=', c, ZERO, True), cmp_terms('<', c, k, True)) for c, k in zip(C, (span, span, angle))])
    for name in ('getMotion', 'getRadiuses'):
        ctx.part(entry, I, st, f, name, pages, angle, span, C, dom, (lin, ang, rng))


def near(a, b):
    d = {m: c for m, c in topoly(a).items()}
    e = {m: c for m, c in topoly(b).items()}
    return set(d) == set(e) and all(abs(d[m] - e[m]) < abs(e[m]) * Fraction(1, 10**6) for m in d)


def entry(ctx, I, st, f, name, pages, angle, span, C, dom, par3):
    lin, ang, rng = par3
    g = ctx.one(R + '::' + name)
    site = at(g)
    # loops that fill the entries of a page
    inner = [L for L in I.loop_info if L.next is not None]
    found = None
    for L in inner:
        nest = nest_of(I, L)
        if len(nest) < 4:
            continue
        found = (L, nest)
    if found is None:
        raise Unsupported('filling loops not found')
    L, nest = found
    page = nest[0]
    S = State(TRUE, dict(L.next.mem))
    J = ctx.interp()
    end = par(g, 1)
    for k in range(3):
        J.write1(mk('elem', mk('fld', end, 'e_'), num(k)), leaf(C[k]), S)
    ret, st2 = J.run(g, args=[page.ind, None], mem=S.mem)
    loc = J.freeze(ret) if not isinstance(ret, tuple) else ret[1]
    G0 = AND(dom, L.next.g)
    locs = [(gg, t) for gg, t in cases(loc) if sat(AND(G0, gg))]
    for gg, t in locs:
        if t.op == 'elem' and t.args[0].op != 'new':
            ctx.ob('entry-of-its-page', False, site, 'entry %s is not in the storage of its page, when %s' % (show(t), witness(AND(G0, gg))))
            return
    if len(locs) != 1 or locs[0][1].op != 'elem':
        raise Unsupported('storage of an entry: %s' % show(loc))
    t = locs[0][1]
    ctx.ob('entry-of-its-page', t.args[0].op == 'new', site, 'entry %s is not in the storage of its page' % show(t))
    # the written index of this storage
    ws = set()
    for l in L.next.mem:
        pass
    node = I.read1(t.args[0], L.next)
    idxs = set(i for i, gg, x in node.arr) if isinstance(node, Node) else set()
    idxs = [i for i in idxs if isinstance(i, T)]
    if len(idxs) != 1:
        raise Unsupported('%d writes per iteration into the entries' % len(idxs))
    w = idxs[0]
    inds = [l.ind for l in nest[1:]]
    sol, why = match(t.args[1], w, C, inds, [span, span, angle])
    if not ctx.ob('distinct-entries', sol is not None, site, why):
        return
    mp = sol
    # allocation
    n = J.read1(mk('fld', t.args[0], '#size'), L.next)
    ctx.ob('entry-inside-storage', all(TM.frompoly(topoly(t_sub(x, t_mul(t_mul(span, span), angle)))) is ZERO or
                                       positive(t_sub(x, t_mul(t_mul(span, span), angle))) for _, x in cases(n)), site, 'storage of %s entries' % show(n))
    # every entry is filled
    fill = subst(L.next.g, mp)
    D = AND(dom, cmp_terms('>=', page.ind, ZERO, True), cmp_terms('<', page.ind, angle, True))
    bad = AND(D, NOT(fill))
    ctx.ob('every-entry-filled', not sat(bad), site, 'an entry is not filled: ' + witness(bad))
    cut = sweep.stops(nest, {**mp, page.ind: page.ind}, D)
    ctx.ob('every-entry-filled', not cut, site, 'filling ends early')
    ctx.entail('filling-completes', TRUE, st.g, site) if False else None
    # values
    dx = t_mul(lin, t_sub(C[0], rng))
    dy = t_mul(lin, t_sub(C[1], rng))
    a = t_mul(ang, page.ind)
    cs, sn = leafof(fn_leaf('cos', a)), leafof(fn_leaf('sin', a))
    x = t_add(t_mul(dx, cs), t_mul(dy, sn))
    y = t_sub(t_mul(dy, cs), t_mul(dx, sn))
    th = t_mul(ang, t_sub(C[2], page.ind))
    Tr = Trig()
    if name == 'getMotion':
        v = [val(J, mk('elem', mk('fld', t, 'e_'), num(k)), L.next, mp) for k in range(3)]
        agree(ctx, 'motion-is-rotated-displacement', site, turns(v[0]), leaf(x), D, 'x', Tr)
        agree(ctx, 'motion-is-rotated-displacement', site, turns(v[1]), leaf(y), D, 'y', Tr)
        for gg, u in cases(v[2]):
            if not sat(AND(D, gg)):
                continue
            d = t_fdiv(t_sub(u, th), num(TWO_PI))
            ok = d.op == 'num' and (d.args[0] == 0 or abs(d.args[0] - round(d.args[0])) < Fraction(1, 10**6))
            ctx.ob('motion-is-rotated-displacement', ok, site, 'heading %s differs from %s by other than whole turns' % (show(u), show(th)))
            lim = t_mul(num(TWO_PI), num(Fraction(10001, 10000)))
            small = AND(cmp_terms('<', th, lim, False), cmp_terms('>', th, t_neg(lim), False))
            hp = num(PI + Fraction(1, 10**5))
            ctx.entail('heading-normalised', AND(D, gg, small), AND(cmp_terms('<=', u, t_mul(hp, num(Fraction(1001, 1000))), False), cmp_terms('>=', u, t_neg(t_mul(hp, num(Fraction(1001, 1000)))), False)), site)
    else:
        co, si = leafof(fn_leaf('cos', th)), leafof(fn_leaf('sin', th))
        r1 = turns(lib(val(J, mk('fld', t, 'first'), L.next, mp)))
        r2 = turns(lib(val(J, mk('fld', t, 'second'), L.next, mp)))
        agree(ctx, 'start-radius', site, r1, leaf(t_add(y, t_fdiv(t_mul(x, co), si))), D, 'first radius', Tr)
        want = t_fdiv(x, si)
        for gg, u in cases(r2):
            H = AND(D, gg)
            if not sat(H):
                continue
            if Tr.eq(u, want):
                ctx.ob('end-radius', True, site)
                continue
            sq = Tr.zero(t_sub(t_mul(u, u), t_mul(want, want)))
            ctx.ob('end-radius', sq, site, 'magnitude of the second radius %s' % show(u))
            s = sign_of(u)
            P, Q = Trig().rat(want)
            prod = t_mul(x, si)
            neg = cmp_terms('<', prod, ZERO, False)
            same_ = [b for b in dvars(gg)]
            ok = s is not None and signed_by(Tr, gg, prod) == s
            ctx.ob('end-radius', ok, site, 'the sign of the second radius is not that of displacement times sine')


def signed_by(Tr, g, prod):
    """sign that the case condition g gives to prod: -1, 1 or None"""
    out = None
    for v in dvars(g):
        a = atoms[v]
        if a.op in ('lt', 'rle') and a.args[1] == 0:
            e = turns(leaf(a.args[0])).leaf
            for s in (1, -1):
                if Tr.zero(t_sub(e, t_mul(num(s), prod))):
                    pos = not sat(AND(g, NOT(TM.bvar(a))))
                    neg = not sat(AND(g, TM.bvar(a)))
                    if pos:
                        out = -s
                    elif neg:
                        out = s
    return out


def sign_of(t):
    """sign of a constant multiple of a square root (or of a product of such), None when unknown"""
    p = topoly(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if all(a.op == 'fn' and a.args[0] in ('sqrt', 'abs') or k % 2 == 0 for a, k in m):
        return 1 if c > 0 else -1
    return None


def positive(t):
    return all(c > 0 for c in topoly(t).values())


def val(J, loc, st, mp):
    v = J.freeze(J.typed(J.read1(loc, st), {'c': 'flt', 'b': 32}))
    return subst(v, mp)


def nest_of(I, L):
    """loops around L, outermost first, by the induction terms its guard depends on"""
    ts = [t for t in subterms(L.next.g) if isinstance(t, T) and t.op == 'ind']
    ids = set(t.args[0] for t in ts)
    return [l for l in I.loop_info if l.id in ids]


def match(r, w, C, inds, radix):
    """solve w(inds) == r(C) as mixed-radix numbers: {ind: term in C}"""
    def weights(t, digs):
        out, rest = {}, ZERO
        for m, c in topoly(t).items():
            ds = [a for a, p in m if a in digs]
            if len(ds) > 1 or any(p != 1 for a, p in m if a in digs):
                return None, None
            mon = TM.frompoly({tuple(x for x in m if x[0] not in digs): c})
            if not ds:
                rest = t_add(rest, mon)
            else:
                out[ds[0]] = t_add(out.get(ds[0], ZERO), mon)
        return out, rest
    wr, cr = weights(r, C)
    ww, cw = weights(w, inds)
    if wr is None or ww is None:
        return None, 'index %s is not linear in the entry' % show(r)
    # reader: a mixed radix system over the entry's components
    todo = dict(zip(C, radix))
    acc = ONE
    order = []
    while todo:
        k = next((c for c in todo if wr.get(c) is acc), None)
        if k is None:
            return None, 'entries share storage: weights %s' % ', '.join('%s' % show(x) for x in wr.values())
        order.append(k)
        acc = t_mul(acc, todo.pop(k))
    mp = {}
    for c in order:
        i = next((i for i in inds if ww.get(i) is wr[c]), None)
        back = next((i for i in inds if i in ww and t_neg(ww[i]) is wr[c]), None)
        if i is None and back is not None and back not in mp:
            mp[back] = t_sub(t_sub(radix[list(C).index(c)], ONE), c)
            continue
        if i is None or i in mp:
            return None, 'entry looked up at %s was stored at %s' % (show(r), show(w))
        mp[i] = c
    d = t_sub(subst(w, mp), r)
    if d is not ZERO:
        return None, 'entry looked up at %s was stored at %s' % (show(r), show(w))
    return mp, ''


def lookups(ctx):
    fs = [f for f in ctx.p.find(MC + '::find') + ctx.p.find(MC + '::end')]
    ctx.need('motion lookups', len(fs), 3)
    rec = ctx.p.records[MC]
    cache = mk('fld', mk('this'), field_of_type(ctx.p, rec, lambda t: (t.get('qn') or '').startswith('std::vector'), 'pages'))
    for f in sorted(fs, key=lambda f: f.key):
        I = ctx.interp()
        ret, st = I.run(f)
        site = at(f)
        held = [mk('fld', mk('this'), x['n']) for x in rec['fields'] if rec['_tu'].types[x['t']].get('c') == 'int']
        n = page_size(ctx, held)
        int_terms.add(n)
        pos = AND(st.g, cmp_terms('>=', n, ONE, True))
        two = len(f.params) == 2 and f.tu.types[f.params[0]['t']].get('c') == 'ref'
        if two:
            a, b = [[mk('elem', mk('fld', par(f, i), 'e_'), num(k)) for k in range(3)] for i in range(2)]
            for t in a + b:
                int_terms.add(t)
            yaw = a[2]
            key = [t_sub(b[0], a[0]), t_sub(b[1], a[1]), b[2]]
        else:
            yaw = par(f, 0)
            int_terms.add(yaw)
            key = None
            if len(f.params) == 2:
                key = [mk('elem', mk('fld', par(f, 1), 'e_'), num(k)) for k in range(3)]
        for gg, t in cases(I.freeze(ret)):
            G = AND(pos, gg)
            if not sat(G):
                continue
            want = 'mapit' if f.name == 'find' else 'mapend'
            if t.op != want or t.args[0].op != 'elem' or t.args[0].args[0] is not cache:
                ctx.ob('lookup-in-page', False, site, 'answers with %s' % show(t))
                continue
            i = t.args[0].args[1]
            i = unU(i)
            symmod(i, n)
            ctx.entail('page-of-wrapped-heading', G, AND(cmp_terms('>=', i, ZERO, True), cmp_terms('<', i, n, True)), site, 'page %s outside the cache' % show(i))
            r = residue(t_sub(i, yaw), n)
            ctx.ob('page-of-wrapped-heading', r is ZERO, site, 'page %s is not the heading modulo the number of pages' % show(i))
            if key is not None:
                k = t.args[1]
                ks = list(k.args) if k.op == 'vec' else [mk('elem', mk('fld', k, 'e_'), num(j)) for j in range(3)]
                ctx.ob('lookup-by-displacement', len(ks) == 3 and all(t_sub(p, q) is ZERO for p, q in zip(ks, key)), site, 'looks up %s' % ', '.join(show(x) for x in ks))


def page_size(ctx, held):
    if len(held) == 1:
        return held[0]
    f = ctx.one(MC + '::reset')
    raise AnchorMissing('%d integers held by the motion cache' % len(held))
