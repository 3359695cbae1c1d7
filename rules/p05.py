"""Cyclic grid vectors: wrap-around ranges and congruence, bounds test, equality/hash agreement, component arithmetic."""
from core import *
UNITS = [os.path.join(VERIF, 'harness', 'vec.cpp')]
V = VEC
EXPLANATION = ('Value-flow summaries of the cyclic vector operations over symbolic components and symbolic sizes; each summary is compared, '
               'modulo linear arithmetic, with the stated law (range and congruence of wrapping, exact bounds predicate, component-wise operators, '
               'planar geometry).')
ASSUMPTIONS = ['component arithmetic does not overflow int', 'cyclic sizes passed to the wrap operations are positive']


def dimsof(ctx, f):
    ta = ctx.p.records[f.cls]['ta']
    return int(ta[0]), int(ta[1]), 'float' if f.cls.rstrip().endswith(' float>') else 'int'


def fresh(ctx):
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    I = ctx.interp()
    I.hooks = {}
    return I


def tcomp(I, base, dim, kind):
    """components of the vector stored at location term base, before the call"""
    out = []
    for i in range(dim):
        t = mk('elem', mk('fld', base, 'e_'), num(i))
        if kind == 'int':
            int_terms.add(t)
        out.append(t)
    return out


def after(I, st, base, dim):
    return [I.freeze(I.read1(mk('elem', mk('fld', base, 'e_'), num(i)), st)) for i in range(dim)]


def retcomps(I, v, dim):
    arr = I.getfld(unfreeze(v), 'e_')
    return [I.freeze(I._getelem(arr, num(i))) for i in range(dim)]


def unfreeze(v):
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'recv':
        return v.leaf.args[0].val
    return v


def symmod(x, n):
    """facts of C++ remainders/quotients by a symbolic positive n inside x"""
    for t in terms_in(x):
        if t.op == 'imod' and not isnum(t.args[1]):
            m = t.args[1]
            add_fact(t, t_sub(t_sub(m, ONE), t))
            add_fact(t, t_sub(t_add(t, m), ONE))
            symmod(t.args[0], n)
            a = t.args[0]
            if not sat(AND(cmp_terms('>', m, ZERO, True), cmp_terms('<', a, ZERO, True))):
                add_fact(t, t)


def residue(t, n):
    """t modulo n, symbolically: inner remainders dropped, multiples of n dropped"""
    p = topoly(t)
    out = ZERO
    for m, c in p.items():
        term = num(c)
        drop = False
        for a, pw in m:
            if a is n and pw > 0 and c.denominator == 1:
                drop = True
                break
            b = residue(a.args[0], n) if a.op == 'imod' and a.args[1] is n else a
            for _ in range(abs(pw)):
                term = t_mul(term, b) if pw > 0 else t_fdiv(term, b)
        if not drop:
            out = t_add(out, term)
    return out


def check(ctx):
    for f in sorted(ctx.p.find(V + '::cycleUnsigned'), key=lambda f: f.key):
        ctx.part(wrap, f, False)
    for f in sorted(ctx.p.find(V + '::cycle'), key=lambda f: f.key):
        ctx.part(wrap, f, True)
    ctx.need('wrap operations', len(ctx.p.find(V + '::cycleUnsigned')), 4)
    ctx.need('signed wrap operations', len(ctx.p.find(V + '::cycle')), 4)
    for part in (exceeded, equality, arithmetic, geometry, conversion):
        ctx.part(part)


def wrap(ctx, f, signed):
    dim, non, kind = dimsof(ctx, f)
    I = fresh(ctx)
    pt = f.tu.types[f.params[0]['t']]
    _, st = I.run(f)
    this = mk('this')
    old = tcomp(I, this, dim, 'int')
    if pt.get('c') == 'ref' and f.tu.types[pt['pt']].get('c') == 'rec':
        sz = tcomp(I, par(f, 0), dim, 'int')[non:]
    else:
        sz = []
        for i in range(len(f.params)):
            t = par(f, i)
            int_terms.add(t)
            sz.append(t)
    if len(sz) != dim - non:
        # parameter packs share a name; sizes are then recovered from the parameter list order
        raise AnchorMissing('sizes of %s' % f)
    new = after(I, st, this, dim)
    ctx.entail('wrap-total', AND(*[cmp_terms('>', z, ZERO, True) for z in sz]), st.g, at(f), 'the wrap must always complete')
    for i in range(non):
        ctx.ob('wrap-keeps-noncyclic', equal_values(new[i], leaf(old[i]), st.g, True), at(f), 'noncyclic component %d changed' % i)
    for i in range(non, dim):
        n = sz[i - non]
        pos = AND(st.g, cmp_terms('>', n, ZERO, True))
        x = new[i]
        if any(terms_in(x, o) for o in ('phi', 'havoc', 'big')):
            raise AnchorMissing('wrapped value of %s is not in closed form' % f)
        for t in leaves(x):
            symmod(t, n)
        # int_terms for all leaves
        if signed:
            half = idiv_leaf(n, num(2))
            add_fact(half, t_sub(n, t_mul(num(2), half)))
            add_fact(half, t_sub(t_add(t_mul(num(2), half), ONE), n))
            lo, hi = t_sub(half, n), t_sub(half, ONE)
        else:
            lo, hi = ZERO, t_sub(n, ONE)
        for g, t in cases(x):
            G = AND(pos, g)
            ctx.entail('wrap-range', G, AND(cmp_terms('>=', t, lo, True), cmp_terms('<=', t, hi, True)), at(f),
                       'component %d leaves [%s, %s]' % (i, show(lo), show(hi)))
            if sat(G):
                r = residue(t_sub(t, old[i]), n)
                ctx.ob('wrap-congruent', r is ZERO, at(f), 'component %d changes by %s, not a multiple of the size' % (i, show(t_sub(t, old[i]))))


def exceeded(ctx):
    fs = ctx.p.find(V + '::isExceeded')
    ctx.need('bounds predicate', len(fs), 2)
    for f in sorted(fs, key=lambda f: f.key):
        dim, non, kind = dimsof(ctx, f)
        I = fresh(ctx)
        ret, st = I.run(f)
        a = tcomp(I, mk('this'), dim, 'int')
        z = tcomp(I, par(f, 0), dim, 'int')
        want = FALSE
        pre = st.g
        for i in range(non):
            want = OR(want, cmp_terms('<', a[i], ZERO, True), cmp_terms('>=', a[i], z[i], True))
            pre = AND(pre, cmp_terms('>=', z[i], ZERO, True))
        ctx.entail('outside-is-exceeded', AND(pre, want), ret, at(f), 'a cell outside the bounds is accepted')
        ctx.entail('inside-is-accepted', AND(pre, NOT(want)), NOT(ret), at(f), 'a cell inside the bounds is rejected')


def equality(ctx):
    n = 0
    for f in sorted(ctx.p.find(V + '::operator==') + ctx.p.find(V + '::operator!='), key=lambda f: f.key):
        dim, non, kind = dimsof(ctx, f)
        I = fresh(ctx)
        ret, st = I.run(f)
        a = tcomp(I, mk('this'), dim, kind)
        b = tcomp(I, par(f, 0), dim, kind)
        eq = AND(*[eq_num(x, y) for x, y in zip(a, b)])
        if f.name.endswith('!='):
            eq = NOT(eq)
        ctx.entail('equality-exact', st.g, IFF(ret, eq), at(f), 'equality must compare exactly all components')
        n += 1
    ctx.need('equality operators', n, 4)
    n = 0
    for f in sorted(ctx.p.find(V + '::operator()'), key=lambda f: f.key):
        dim, non, kind = dimsof(ctx, f)
        if kind != 'int':
            continue
        I = fresh(ctx)
        ret, st = I.run(f)
        key = par(f, 0)
        comps = set(mk('elem', mk('fld', key, 'e_'), num(i)) for i in range(dim))
        bad = [t for t in leafterms(ret) if t not in comps]
        ctx.ob('hash-of-components', not bad, at(f), 'hash depends on %s, so equal cells may hash differently' % ', '.join(show(t) for t in bad))
        n += 1
    ctx.need('hash operators', n, 2)


def leafterms(v):
    """non-constant atoms a value is computed from (stopping at memory reads)"""
    out = set()

    def walk(t):
        if isinstance(t, N):
            for x in leaves(t):
                walk(x)
            for v_ in dvars(t):
                walk(atoms[v_])
            return
        if not isinstance(t, T):
            return
        if t.op in ('num', 'str', 'true', 'false', 'null'):
            return
        if t.op == 'poly':
            for m, c in t.args[0]:
                for a, _ in m:
                    walk(a)
            return
        if t.op in ('fld', 'elem', 'par', 'this', 'glob', 'var', 'phi', 'havoc', 'big', 'call', 'undef', 'ind', 'new'):
            out.add(t)
            return
        for a in t.args:
            if isinstance(a, tuple):
                for b in a:
                    walk(b)
            else:
                walk(a)
    walk(v)
    return out


def arithmetic(ctx):
    n = 0
    for name, op in (('operator+', t_add), ('operator-', t_sub), ('operator*', t_mul)):
        for f in sorted(ctx.p.find(V + '::' + name), key=lambda f: f.key):
            dim, non, kind = dimsof(ctx, f)
            I = fresh(ctx)
            ret, st = I.run(f)
            a = tcomp(I, mk('this'), dim, kind)
            b = tcomp(I, par(f, 0), dim, kind)
            for i, c in enumerate(retcomps(I, ret, dim)):
                ctx.ob('componentwise', equal_values(c, leaf(op(a[i], b[i])), st.g), at(f), 'component %d is %s' % (i, show(c)))
            n += 1
    ctx.need('component operators', n, 9)
    sq = {}
    for name in ('sqlen', 'len', 'norm'):
        fs = sorted(ctx.p.find(V + '::' + name), key=lambda f: f.key)
        ctx.need(name, len(fs), 2)
        for f in fs:
            dim, non, kind = dimsof(ctx, f)
            I = fresh(ctx)
            ret, st = I.run(f)
            a = tcomp(I, mk('this'), dim, kind)
            k = dim if name == 'norm' else non
            s = ZERO
            for i in range(k):
                s = t_add(s, t_mul(a[i], a[i]))
            if name != 'sqlen':
                s = fn_leaf('sqrt', s)
            ctx.ob('length-is-planar', equal_values(ret, leaf(s), st.g), at(f), '%s is %s' % (name, show(ret)))


def geometry(ctx):
    def xy(t, kind, i):
        e = mk('elem', mk('fld', t, 'e_'), num(i))
        if kind == 'int':
            int_terms.add(e)
        return e
    n = 0
    for name in ('cross2d', 'dot2d'):
        for f in sorted(ctx.p.find(V + '::' + name), key=lambda f: f.key):
            dim, non, kind = dimsof(ctx, f)
            I = fresh(ctx)
            ret, st = I.run(f)
            t, a = mk('this'), par(f, 0)
            if name == 'cross2d':
                w = t_sub(t_mul(xy(t, kind, 0), xy(a, kind, 1)), t_mul(xy(t, kind, 1), xy(a, kind, 0)))
            else:
                w = t_add(t_mul(xy(t, kind, 0), xy(a, kind, 0)), t_mul(xy(t, kind, 1), xy(a, kind, 1)))
            ctx.ob('planar-product', equal_values(ret, leaf(w), st.g), at(f), '%s is %s' % (name, show(ret)))
            n += 1
    ctx.need('planar products', n, 4)
    n = 0
    for f in sorted(ctx.p.find(V + '::distLine2d') + ctx.p.find(V + '::distLinestrip2d'), key=lambda f: f.key):
        dim, non, kind = dimsof(ctx, f)
        if non != 2:
            continue
        I = fresh(ctx)
        ret, st = I.run(f)
        t, a, b = mk('this'), par(f, 0), par(f, 1)
        P = lambda q: (xy(q, kind, 0), xy(q, kind, 1))
        d = lambda u, v: tuple(t_sub(x, y) for x, y in zip(u, v))
        dot = lambda u, v: t_add(t_mul(u[0], v[0]), t_mul(u[1], v[1]))
        cr = lambda u, v: t_sub(t_mul(u[0], v[1]), t_mul(u[1], v[0]))
        ln = lambda u: fn_leaf('sqrt', dot(u, u))
        p_, a_, b_ = P(t), P(a), P(b)
        line = t_fdiv(cr(d(b_, a_), d(p_, a_)), ln(d(b_, a_)))
        sq = len(f.name) and f.name.endswith('Linestrip2d')
        if not sq:
            ctx.ob('line-distance', equal_values(ret, leaf(line), st.g), at(f), 'signed distance to the line is %s' % show(ret))
        else:
            isint = kind == 'int'
            ba = cmp_terms('<=', dot(d(b_, a_), d(p_, a_)), ZERO, isint)
            bb = cmp_terms('<=', dot(d(a_, b_), d(p_, b_)), ZERO, isint)
            for G, want, what in ((ba, ln(d(p_, a_)), 'nearest end is the first point'),
                                  (AND(NOT(ba), bb), ln(d(p_, b_)), 'nearest end is the second point')):
                ctx.ob('segment-end-distance', equal_values(ret, leaf(want), AND(st.g, G)), at(f), what)
            G = AND(st.g, NOT(ba), NOT(bb))
            ok = all(abs_of(tt, line, AND(G, g)) for g, tt in cases(ret) if sat(AND(G, g)))
            ctx.ob('segment-inner-distance', ok, at(f), 'perpendicular distance expected inside the segment')
        n += 1
    ctx.need('line distances', n, 4)
    fs = [f for f in ctx.p.find(V + '::rotate') if dimsof(ctx, f)[2] == 'float']
    ctx.need('rotation', len(fs))
    for f in fs:
        I = fresh(ctx)
        ret, st = I.run(f)
        o = tcomp(I, mk('this'), 3, 'float')
        ang = par(f, 0)
        c, s = fn_leaf('cos', ang), fn_leaf('sin', ang)
        new = after(I, st, mk('this'), 3)
        ctx.ob('rotation-planar', equal_values(new[0], leaf(t_sub(t_mul(c, o[0]), t_mul(s, o[1]))), st.g), at(f), 'x is ' + show(new[0]))
        ctx.ob('rotation-planar', equal_values(new[1], leaf(t_add(t_mul(s, o[0]), t_mul(c, o[1]))), st.g), at(f), 'y is ' + show(new[1]))
        import math
        pi = num(Fraction(math.pi))
        tot = t_add(o[2], ang)
        pre = AND(st.g, cmp_terms('<=', tot, t_mul(num(Fraction('2.9999')), pi), False), cmp_terms('>=', tot, t_mul(num(Fraction('-2.9999')), pi), False))
        pi = t_add(pi, num(Fraction('0.00001')))
        for g, t in cases(new[2]):
            G = AND(pre, g)
            if not sat(G):
                continue
            r = topoly(t_sub(t, tot))
            k = r.get((), Fraction(0))
            rest = [m for m in r if m != ()]
            q = k / (2 * Fraction(math.pi))
            ctx.ob('rotation-heading-congruent', not rest and abs(q - round(q)) < Fraction('0.000001'), at(f), 'heading changes by %s' % show(t_sub(t, o[2])))
            ctx.entail('rotation-heading-range', G, AND(cmp_terms('<=', t, pi, False), cmp_terms('>=', t, t_neg(pi), False)), at(f), 'heading outside one turn')


def abs_of(t, x, G):
    if t.op == 'fn' and t.args[0] in ('fabs', 'abs') and (t.args[1] is x or t.args[1] is t_neg(x)):
        return True
    if t is x or t is t_neg(x):
        return not sat(AND(G, cmp_terms('<', t, ZERO, False)))
    return False


def conversion(ctx):
    n = 0
    for f in sorted([f for f in ctx.p.funcs.values() if f.kind == 'ctor' and f.clsqn == V and not f.defaulted], key=lambda f: f.key):
        dim, non, kind = dimsof(ctx, f)
        I = fresh(ctx)
        _, st = I.run(f)
        if st is None:
            continue
        new = after(I, st, mk('this'), dim)
        ps = f.params
        if not ps:
            src = [ZERO] * dim
            sk = 'int'
        else:
            t0 = f.tu.types[ps[0]['t']]
            t0 = f.tu.types[t0['pt']] if t0.get('c') == 'ref' else t0
            if t0.get('c') == 'rec':
                if len(ps) != 1 or strip_targs(t0.get('qn') or ctx.p.records[t0['rec']]['qn']) != V:
                    continue
                sk = 'float' if t0['rec'].endswith(' float>') else 'int'
                src = tcomp(I, par(f, 0), dim, sk)
            else:
                if len(ps) != dim:
                    continue
                sk = None
                src = []
                for j, p in enumerate(ps):
                    pt = f.tu.types[p['t']]
                    pt = f.tu.types[pt['pt']] if pt.get('c') == 'ref' else pt
                    src.append((par(f, j), pt.get('c')))
                if len(set(s for s, _ in src)) != dim:
                    continue
        n += 1
        for i in range(dim):
            s = src[i]
            k = sk
            if isinstance(s, tuple):
                s, c = s
                k = 'int' if c == 'int' else 'float'
            if k == 'int':
                int_terms.add(s)
            want = fn_leaf('round', s) if kind == 'int' and k == 'float' else s
            ctx.ob('construct-converts', equal_values(new[i], leaf(want), st.g), at(f), 'component %d is %s, expected %s' % (i, show(new[i]), show(want)))
    ctx.need('vector constructors', n, 4)
