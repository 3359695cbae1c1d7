"""Motion cache: which motions are known, the cells and the samples they consist of, their length, and paths expanded into them."""
from core import *
from numlib import *
import sweep
from p05 import residue
from p08 import possible, substn, value
from p11 import Trig, turns, near
from p09 import last_iteration_of, ivar
UNITS = ['planner_cspace/src/motion_cache.cpp']
MC = 'planner_cspace::planner_3d::MotionCache'
EXPLANATION = ('The filling function is summarised. Stores into the cache are solved per heading, displacement and end heading; the sampling loops are treated by induction: '
               'sample position of an iteration against its geometric definition by exact rational functions of sine and cosine, cells listed iff new, length accumulated per sample. '
               'Path expansion is summarised and each append is matched with the case of the step it belongs to.')
ASSUMPTIONS = ['positive resolutions, non-negative range', 'real arithmetic: float rounding is not modelled', 'iterators of an unordered map compare equal to end() iff nothing was found']
TWO_PI = 2 * PI


def check(ctx):
    for p in (filled, expanded):
        ctx.part(p)


def page_lists(ctx):
    rec = ctx.p.records[MC + '::Page']
    n = {}
    for fd in rec['fields']:
        t = rec['_tu'].types[fd['t']]
        q = str(t.get('qn')) + str(t.get('rec'))
        if 'vector' in q:
            n['real' if 'Float' in q or 'float' in q else 'cell'] = fd['n']
        elif t.get('c') == 'flt':
            n['dist'] = fd['n']
    if len(n) != 3:
        raise AnchorMissing('lists of a motion')
    return n


def roots(v, x, si, neg, Tr):
    """square roots equal to |x/si| as a choice by the sign of x*si"""
    want = t_fdiv(x, si)
    mp = {}
    for t in terms_in(v, 'fn', 'sqrt'):
        if Tr.zero(t_sub(t.args[1], t_mul(want, want))):
            mp[t] = ite(neg, leaf(t_neg(want)), leaf(want))
    return substn(v, mp) if mp else v


def pushes(I, name, pred):
    return [e for e in I.events if e.kind == 'push' and pred(e)]


def listof(e, names):
    """the page list an append goes to"""
    l = e.obj.leaf if e.obj is not None else None
    if l is not None and l.op == 'fld':
        for k, n in names.items():
            if l.args[1] == n:
                return k
    return None


def vec3(I, e, ty):
    u = e.args[0].leaf.args[0].val if e.args[0].leaf is not None and e.args[0].leaf.op == 'recv' else None
    if u is None:
        raise Unsupported('appended value %s' % show(e.args[0]))
    return [I.freeze(I.typed(I.freeze(I._getelem(I.getfld(u, 'e_'), num(i))), ty)) for i in range(3)]


FLT = {'c': 'flt', 'b': 32}


def filled(ctx):
    f = ctx.one(MC + '::reset')
    site = at(f)
    names = page_lists(ctx)
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    I = ctx.interp()
    _, st = I.run(f)
    lin, ang, rng = [par(f, i) for i in range(3)]
    ires, gres = par(f, 4), par(f, 5)
    int_terms.add(rng)
    n = nearest(t_fdiv(num(TWO_PI), ang))
    ns = [t for L in I.loop_info for t in terms_in(L.body_g, 'fn', 'round')]
    angle = next((t for t in ns if near(t.args[1], n.args[1])), None)
    if angle is None:
        ctx.ob('page-per-heading', False, site, 'the number of pages is not the rounded number of steps in a turn')
        return
    int_terms.add(angle)
    rec = ctx.p.records[f.cls]
    this = mk('this')
    cache = mk('fld', this, field_of_type(ctx.p, rec, lambda t: (t.get('qn') or '').startswith('std::vector'), 'pages'))
    psize = mk('fld', this, field_of_type(ctx.p, rec, lambda t: t.get('c') == 'int', 'number of pages'))
    rs = [e for e in evs(I, 'resize') if e.obj is not None and e.obj.leaf is cache]
    ctx.need('page resizes', len(rs))
    ctx.entail('page-per-heading', st.g, OR(*[AND(e.g, cmpv('==', lift1c(unU, e.args[0]), leaf(angle), True)) for e in rs]), site)
    ctx.entail('page-per-heading', st.g, eqv(I.freeze(I.typed(I.read1(psize, st), INT32)), leaf(angle), True), site, 'number of pages held')
    # stores of whole motions
    ss = []
    for e in evs(I, 'store'):
        for g, t in cases(e.loc) if e.loc is not None else ():
            if t.op == 'elem' and t.args[0].op == 'elem' and t.args[0].args[0] is cache:
                ss.append((e, AND(e.g, g), t))
    ctx.need('stores of motions', len(ss))
    C4 = sweep.cellv(3) + [mk('par', 'cell3')]
    int_terms.add(C4[3])
    base = AND(cmp_terms('>=', rng, ZERO, True), cmp_terms('>=', angle, ONE, True))
    len2 = t_add(t_mul(C4[1], C4[1]), t_mul(C4[2], C4[2]))
    r2 = t_mul(rng, rng)
    disk = AND(OR(NOT(cmp_terms('==', C4[1], ZERO, True)), NOT(cmp_terms('==', C4[2], ZERO, True))), cmp_terms('<=', len2, r2, True),
               *[AND(cmp_terms('>=', t, t_neg(rng), True), cmp_terms('<=', t, rng, True)) for t in C4[1:3]])
    want = AND(base, disk, *[AND(cmp_terms('>=', t, ZERO, True), cmp_terms('<', t, angle, True)) for t in (C4[0], C4[3])])
    vs = []
    old = sweep.CELL[:]
    sweep.CELL[:] = C4
    try:
        for e, g, t in ss:
            key = list(t.args[1].args) if t.args[1].op == 'vec' else None
            if key is None or len(key) != 3:
                raise Unsupported('key of a stored motion: %s' % show(t.args[1]))
            loops = [l for l in e.loops if any(l.ind in subterms(x) for x in key + [t.args[0].args[1]])]
            g = exists_other(quiet_turns(g), [l.ind for l in loops])
            for v in sweep.visits([leaf(unU(t.args[0].args[1]))] + [leaf(k) for k in key], g, loops):
                vs.append((v, e, g))
    finally:
        sweep.CELL[:] = old
    miss = AND(want, NOT(OR(*[v.g for v, _, _ in vs])))
    cov, wit = covered(miss)
    ctx.ob('every-motion-stored', cov, site, 'a motion within the range is missing: ' + wit)
    for v, e, g in vs:
        cut = sweep.stops(v.loops, v.mp, AND(want, v.g))
        ctx.ob('every-motion-stored', not cut, at(e), 'filling ends early')
    # sampling loops
    ps = [(e, listof(e, names)) for e in I.events if e.kind == 'push']
    loops = []
    for e, k in ps:
        if k == 'real' and e.loops and e.loops[-1] not in loops:
            loops.append(e.loops[-1])
    ctx.need('sampling loops', len(loops))
    S = {}
    for L in loops:
        S[L] = ctx.part(sampling, I, f, L, names, ps, angle, (lin, ang, rng, ires, gres), base)
    for e, k in ps:
        if k in ('cell', 'real'):
            ctx.ob('only-samples-listed', bool(e.loops) and e.loops[-1] in loops, at(e), 'something else than a sample is listed')
    # nothing else changes what is stored
    held = set(names[k] for k in ('cell', 'real'))
    for e in I.events:
        l = e.obj.leaf if getattr(e, 'obj', None) is not None else None
        if e.kind in ('clear', 'erase', 'resize', 'pop') and l is not None and (l.op == 'fld' and l.args[1] in held or rootof(l) is cache and l is not cache):
            ctx.ob('only-samples-listed', not sat(e.g), at(e), 'listed samples are removed (%s)' % e.kind)
    ctx.part(longest, I, st, f, loops, names, ps, angle, (lin, ang, rng, ires, gres), S)
    # what is stored
    for e, g, t in ss:
        ctx.part(stored, I, e, g, t, S, loops, names, angle, (lin, ang, rng, ires, gres), base)


def longest(ctx, I, st, f, loops, names, ps, angle, par5, S):
    """the reported extent covers every cell listed for a straight motion"""
    rec = ctx.p.records[f.cls]
    mr = mk('fld', mk('this'), field_of_type(ctx.p, rec, lambda t: 'CyclicVec' in (t.get('qn') or ''), 'extent'))
    site = at(f)
    fin = [I.freeze(I.typed(I.read1(mk('elem', mk('fld', mr, 'e_'), num(k)), st), INT32)) for k in range(3)]
    for e, k in ps:
        if k != 'cell' or not e.loops or S.get(e.loops[-1]) is None:
            continue
        L = e.loops[-1]
        D = AND(turns(e.g), S[L].G.straight)
        if not sat(D):
            continue
        v = vec3(I, e, INT32)
        for a in range(2):
            ph = [t for t in terms_in(fin[a], 'phi')]
            locs = dict.fromkeys(t.args[1] for t in ph)
            ok = False
            for loc in locs:
                nv = I.freeze(I.typed(I.read1(loc, L.next), INT32))
                old = mk('phi', L.id, loc)
                int_terms.add(old)
                if nv is leaf(old):
                    continue
                ge = lambda x, y: cmpv('>=', x, y, True)
                bad = AND(e.g, S[L].G.straight, L.next.g, NOT(AND(ge(nv, v[a]), ge(nv, lift1c(t_neg, v[a])), ge(nv, leaf(old)))))
                ok = not sat(turns(bad))
                ok = ok and all(t.args[1] is loc for t in ph) and not sat(AND(st.g, NOT(AND(*[ge(fin[a], leaf(t)) for t in ph]))))
                for l in e.loops[:-1]:
                    w = I.freeze(I.typed(I.read1(loc, l.next), INT32))
                    ok = ok and all(x.op == 'phi' and x.args[1] is loc for _, x in cases(w))
            ctx.ob('extent-covers-straight-motions', ok, at(e), 'axis %d: the reported extent does not grow with the cells of straight motions' % a)


def rootof(t):
    while t.op in ('fld', 'elem') and isinstance(t.args[0], T) and t.args[0].op != 'this':
        t = t.args[0]
    return t


def covered(g):
    g = quiet_turns(g)
    return (True, '') if not sat(g) else (False, witness(g))


def quiet_turns(g):
    return turns(g) if isinstance(g, N) else g


class Sampling(object):
    pass


def frame(L, e_key, angle, par5):
    """geometry of the motion with key (i, dx, dy, j)"""
    lin, ang, rng, ires, gres = par5
    i, d0, d1, j = e_key
    G = Sampling()
    G.len2 = t_add(t_mul(d0, d0), t_mul(d1, d1))
    G.n = nearest(t_fdiv(leafof(fn_leaf('sqrt', G.len2)), gres))
    th, te = t_mul(ang, i), t_mul(ang, j)
    cs, sn = leafof(fn_leaf('cos', th)), leafof(fn_leaf('sin', th))
    dx, dy = t_mul(lin, d0), t_mul(lin, d1)
    G.x = t_add(t_mul(dx, cs), t_mul(dy, sn))
    G.y = t_sub(t_mul(dy, cs), t_mul(dx, sn))
    G.rel = t_sub(te, th)
    G.si, G.co = leafof(fn_leaf('sin', G.rel)), leafof(fn_leaf('cos', G.rel))
    lim = num(Fraction('0.1'))
    G.straight = AND(cmp_terms('<', G.si, lim, False), cmp_terms('>', G.si, t_neg(lim), False))
    G.neg = cmp_terms('<', t_mul(G.x, G.si), ZERO, False)
    G.th, G.te, G.dx, G.dy, G.d = th, te, dx, dy, (d0, d1)
    G.i, G.j, G.lin, G.ang, G.angle = i, j, lin, ang, angle
    return G


def pose(G, ratio):
    """sample at ratio: guarded x, y, heading of straight and curved motions"""
    st = [leaf(t_mul(G.d[0], ratio)), leaf(t_mul(G.d[1], ratio)), leaf(G.i)]
    r1 = t_add(G.y, t_fdiv(t_mul(G.x, G.co), G.si))
    r2 = t_fdiv(G.x, G.si)
    ps = num(PI)
    turn = ite(cmp_terms('<', G.rel, t_neg(ps), False), leaf(t_add(G.rel, num(TWO_PI))),
               ite(cmp_terms('>', G.rel, ps, False), leaf(t_sub(G.rel, num(TWO_PI))), leaf(G.rel)))
    half = num(PI / 2)
    fn = lambda n, x: leafof(fn_leaf(n, x))
    one = t_sub(ONE, ratio)
    r = t_add(t_mul(r1, one), t_mul(r2, ratio))
    out = []
    for k, name in enumerate(('cos', 'sin')):
        c_e = t_add((G.dx, G.dy)[k], t_mul(r2, fn(name, t_add(G.te, half))))
        c_s = t_mul(r1, fn(name, t_add(G.th, half)))
        c = t_add(t_mul(c_s, one), t_mul(c_e, ratio))
        out.append(lift1c(lambda t: t_fdiv(t_sub(c, t_mul(r, fn(name, t_add(t_add(G.th, t_mul(ratio, t)), half)))), G.lin), turn))
    out.append(lift1c(lambda t: t_fdiv(t_add(G.th, t_mul(ratio, t)), G.ang), turn))
    return [ite(G.straight, a, b) for a, b in zip(st, out)], r1, r2


def norm(v, G, Tr):
    return quarter(roots(turns(lib(v)), G.x, G.si, G.neg, Tr))


def quarter(v):
    """quarter turns inside sine and cosine taken out"""
    def one(t):
        c = topoly(t.args[1]).get((), Fraction(0))
        k = round(c / (PI / 2))
        if not k or abs(c - k * PI / 2) > Fraction(1, 10**4):
            return None
        x = t_sub(t.args[1], num(c))
        s, co = leafof(fn_leaf('sin', x)), leafof(fn_leaf('cos', x))
        return {'sin': [s, co, t_neg(s), t_neg(co)], 'cos': [co, t_neg(s), t_neg(co), s]}[t.args[0]][k % 4]
    mp = {}
    for n in ('sin', 'cos'):
        for t in terms_in(v, 'fn', n):
            u = one(t)
            if u is not None:
                mp[t] = u
    return subst(v, mp) if mp else v


def sampling(ctx, I, f, L, names, ps, angle, par5, base):
    lin, ang, rng, ires, gres = par5
    nest = [e for e, k in ps if k == 'real' and e.loops[-1] is L]
    outer = nest[0].loops[:-1]
    R = Sampling()
    R.L, R.outer = L, outer
    # the motion being filled: the key of the store that follows, taken from the loops
    key = None
    for e in evs(I, 'store'):
        for g, t in cases(e.loc) if e.loc is not None else ():
            if t.op == 'elem' and t.args[0].op == 'elem' and t.args[1].op == 'vec' and len(t.args[1].args) == 3 and list(e.loops[:len(outer)]) == list(outer):
                k = (unU(t.args[0].args[1]),) + tuple(t.args[1].args)
                if key is not None and key != k:
                    raise Unsupported('several motions are stored from one place')
                key = k
    if key is None:
        raise Unsupported('motion of a sampling loop')
    site = '%s (samples of a motion)' % at(nest[0])
    for t in key:
        int_terms.add(t)
    G = frame(L, key, angle, par5)
    int_terms.add(G.n)
    R.G = G
    Tr = Trig()
    body = turns(L.body_g)
    dom = AND(base, *[cmp_terms('>=', l.ind, ZERO, True) for l in list(outer) + [L]])
    got_n = [t for t in terms_in(L.body_g, 'fn', 'round') if L.ind in subterms(L.body_g) and Tr.eq(t.args[1], G.n.args[1])]
    inr = cmp_terms('<', L.ind, G.n, True)
    ctx.entail('samples-per-motion', AND(dom, body), inr, site, 'too many samples')
    ctx.entail('samples-per-motion', AND(dom, turns(L.head.g), inr), body, site, 'too few samples')
    ctx.entail('samples-per-motion', AND(dom, body), turns(L.next.g), site, 'sampling ends early')
    ratio = t_fdiv(L.ind, G.n)
    D = AND(dom, body)
    P, r1, r2 = pose(G, ratio)
    P = [quarter(turns(v)) for v in P]
    R.P = P
    # samples kept for expansion
    e0 = nest[0]
    q = nearest(t_fdiv(ires, gres))
    int_terms.add(q)
    every = ite(cmp_terms('<', q, ONE, True), leaf(ONE), leaf(q))
    due = lift1(lambda k: cmp_terms('==', imod_(L.ind, k), ZERO, True), every)
    got = FALSE
    for e in nest:
        got = OR(got, turns(e.g))
        v = vec3(I, e, FLT)
        for k in range(3):
            agree(ctx, 'sample-position', at(e), norm(v[k], G, Tr), P[k], AND(D, turns(e.g)), 'xyh'[k], Tr)
        only(ctx, 'sample-once', nest, e)
    MF = AND(mod_one(got), OR(NOT(cmp_terms('==', q, ONE, True)), cmp_terms('==', imod_(L.ind, q), ZERO, True)))
    ctx.entail('regular-samples-kept', AND(D, MF, due), got, site, 'a sample due is not kept')
    ctx.entail('regular-samples-kept', AND(D, MF, got), due, site, 'a sample is kept that is not due')
    # cells
    cs = [e for e, k in ps if k == 'cell' and e.loops and e.loops[-1] is L]
    ctx.need('listed cells', len(cs))
    cells = None
    pushed = FALSE
    for e in cs:
        v = vec3(I, e, INT32)
        for k in range(3):
            agree(ctx, 'cell-of-sample', at(e), norm(v[k], G, Tr), cellof(P[k], k, angle), AND(D, turns(e.g)), 'xyh'[k], Tr)
        cells = v
        pushed = OR(pushed, e.g)
        only(ctx, 'cell-listed-once', cs, e)
    has = [b for b in terms_in(AND(L.body_g, OR(pushed, L.next.g)), 'elem') if is_has(b)]
    has += [b for b in [atoms[x] for x in dvars(pushed)] if b.op == 'elem' and is_has(b)]
    has = sorted(set(has), key=lambda b: repr(b.args[1]))
    if not has:
        ctx.ob('cell-listed-once', False, site, 'cells are listed without regard to those already listed')
        return R
    # each membership test belongs to a case of the cell
    cellkeys = cell_cases(cells)
    isend = AND(*[eqv(c, leaf(t), True) for c, t in zip(cells, key[1:])])
    known = FALSE
    for gg, ck in cellkeys:
        hs = [h for h in has if h.args[1].op == 'vec' and all(a is b for a, b in zip(h.args[1].args, ck))]
        hs = hs or [h for h in has if h.args[1].op == 'vec' and not sat(AND(dom, gg, NOT(AND(*[eqv(gv(a), leaf(b), True) for a, b in zip(h.args[1].args, ck)]))))]
        known = OR(known, AND(gg, *[TM.bvar(h) for h in hs[:1]])) if hs else known
    ctx.entail('cell-listed-once', AND(dom, pushed), NOT(known), site, 'a cell already listed is listed again')
    ctx.entail('every-new-cell-listed', AND(dom, L.body_g, NOT(isend), NOT(known)), pushed, site, 'a cell is not listed')
    setroots = set(rootset(h) for h in has)
    reg = []
    for e in evs(I, 'store'):
        for g, t in cases(e.loc) if e.loc is not None else ():
            if t.op == 'elem' and t.args[0] in setroots:
                reg.append((e, AND(e.g, g), t))
    for e in I.events:
        if e.kind == 'insert' and e.obj is not None and e.obj.leaf in setroots and e.args:
            k = e.args[0]
            reg.append((e, e.g, None))
    first = [r for r in reg if L not in r[0].loops]
    again = [r for r in reg if L in r[0].loops]
    d_known = FALSE
    for e, g, t in first:
        if t is None or t.args[1].op != 'vec':
            raise Unsupported('cells known beforehand')
        okd = all(a is b for a, b in zip(t.args[1].args, key[1:]))
        if list(e.loops) != list(outer):
            continue
        ctx.ob('only-end-known-beforehand', okd, at(e), 'cell %s is taken as listed before sampling' % show(t.args[1]))
        if okd:
            d_known = OR(d_known, g)
    anycell = [mk('par', 'cell%d' % k) for k in range(3)]
    for t in anycell:
        int_terms.add(t)
    for r in setroots:
        had = I.map_has(r, mk('vec', *anycell), L.entry)
        ctx.entail('only-end-known-beforehand', AND(dom, L.entry.g, had), AND(*[cmp_terms('==', a, t, True) for a, t in zip(anycell, key[1:])]), site,
                   'a cell is taken as listed before sampling')
    notend = NOT(isend)
    ctx.entail('end-not-listed', AND(dom, pushed, NOT(d_known)), notend, site, 'the end cell is listed as part of the motion')
    marked = FALSE
    for e, g, t in again:
        if t is None or t.args[1].op != 'vec':
            raise Unsupported('marking of listed cells')
        m = AND(g, *[eqv(c, gv(a), True) for c, a in zip(cells, t.args[1].args)])
        marked = OR(marked, m)
        ctx.entail('only-listed-marked', AND(dom, g), AND(m, pushed), at(e), 'a cell is marked as listed without being listed')
    ctx.entail('listed-cell-marked', AND(dom, pushed), marked, site, 'a listed cell is not marked')
    return R


def gv(x):
    return x if isinstance(x, N) else leaf(x)


def rootset(h):
    l = h.args[0]
    p = l.args[1] if l.op == 'phi' else l
    while p.op in ('fld',) and p.args[1] in ('#has', '#elems'):
        p = p.args[0]
    return p


def is_has(b):
    l = b.args[0]
    if l.op == 'phi':
        l = l.args[1]
    return '#has' in show(l) and b.args[1].op == 'vec'


def cell_cases(cells):
    out = []

    def rec(k, g, acc):
        if not sat(g):
            return
        if k == len(cells):
            out.append((g, acc))
            return
        for gk, t in cases(cells[k]):
            rec(k + 1, AND(g, gk), acc + [t])
    rec(0, TRUE, [])
    return out


def imod_(a, k):
    """remainder of a by k as the program computes it"""
    if k.op == 'num' and k.args[0] == 1:
        return ZERO
    t = mk('imod', a, k)
    int_terms.add(t)
    return t


def mod_one(g):
    """remainders by one are zero"""
    r = TRUE
    for v in dvars(g):
        for t in subterms(atoms[v]):
            if isinstance(t, T) and t.op == 'imod' and t.args[1] is ONE:
                r = AND(r, cmp_terms('==', t, ZERO, True))
    return r


def cellof(p, k, angle):
    r = lib(lift1c(lambda t: nearest(t), p))
    if k < 2:
        return r
    def cy(t):
        t = mk('cycu', t, angle)
        int_terms.add(t)
        return t
    return lift1c(cy, r)


def only(ctx, rule, es, e):
    for o in es:
        if o is not e:
            ctx.entail(rule, AND(e.g, o.g), FALSE, at(e), 'appended twice')


def stored(ctx, I, e, g, t, S, loops, names, angle, par5, base):
    """the stored motion is the sampled one, with its length"""
    v = e.val
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'recv':
        v = v.leaf.args[0].val
    kids = v.kids
    site = at(e)
    key = (unU(t.args[0].args[1]),) + tuple(t.args[1].args)
    G = frame(None, key, angle, par5)
    int_terms.add(G.n)
    Tr = Trig()
    gg = turns(g)
    dom = AND(base, *[cmp_terms('>=', l.ind, ZERO, True) for l in e.loops])
    D = AND(dom, gg)
    used = set()
    for k in ('cell', 'real'):
        s = kids[names[k]].kids.get('#size')
        s = I.freeze(s)
        ph = set(p.args[0] for p in terms_in(s, 'phi'))
        used |= ph
        for c, x in cases(s):
            if sat(AND(D, turns(c))):
                ctx.ob('whole-motion-stored', x.op == 'phi' and any(L.id == x.args[0] for L in loops), site, 'the stored %s list is %s' % (k, show(x)))
    dist = I.freeze(I.typed(kids[names['dist']], FLT))
    dist = norm(dist, G, Tr)
    length = leafof(fn_leaf('sqrt', G.len2))
    SL = AND(D, G.straight)
    if sat(SL):
        agree(ctx, 'length-of-straight-motion', site, dist, leaf(length), SL, '', Tr)
    CU = AND(D, NOT(G.straight))
    if not sat(CU):
        return
    cand = [L for L in loops if S.get(L) is not None and L.id in used]
    if len(cand) != 1:
        raise Unsupported('sampling loop of a curve')
    L = cand[0]
    P = S[L].P
    fin = possible(dist, CU)
    ph = [p for p in terms_in(fin, 'phi') if p.args[0] == L.id]
    acc = [p for p in ph if p.op == 'phi' and not any(p in subterms(q) for q in terms_in(fin, 'fn', 'sqrt'))]
    if len(acc) != 1:
        ctx.ob('length-of-curve', False, site, 'the length of a curve is not accumulated over its samples')
        return
    acc = acc[0]
    # sample of the previous iteration as held by the loop
    prevs = [p for p in terms_in(fin, 'elem') if any(q.args[0] == L.id for q in terms_in(p, 'phi'))] + [p for p in ph if p is not acc and p.args[1].op != 'var_']
    prevs = list(dict.fromkeys(prevs))
    ent, nxt, ax = {}, {}, {}
    gN = AND(dom, turns(L.body_g), NOT(G.straight))
    for p in prevs:
        loc = under(p)
        if loc is None:
            continue
        ent[p] = possible(norm(I.freeze(I.typed(I.read1(loc, L.entry), FLT)), G, Tr), CU)
        nv = possible(norm(I.freeze(I.typed(I.read1(loc, L.next), FLT)), G, Tr), gN)
        for k in range(2):
            if same(Trig(), nv, P[k], gN)[0]:
                ax[p] = k
    last = lambda a, b: t_add(acc, leafof(fn_leaf('sqrt', t_add(t_mul(t_sub(G.d[0], a), t_sub(G.d[0], a)), t_mul(t_sub(G.d[1], b), t_sub(G.d[1], b))))))
    px = [p for p in prevs if ax.get(p) == 0]
    py = [p for p in prevs if ax.get(p) == 1]
    if not (len(px) == 1 and len(py) == 1):
        ctx.ob('length-of-curve', False, site, 'the end of a curve is not measured from its last sample')
        return
    px, py = px[0], py[0]
    for p in (px, py):
        ctx.ob('length-of-curve', ent[p] is leaf(ZERO), site, 'sampling does not begin at the start')
    agree(ctx, 'length-of-curve', site, fin, leaf(last(px, py)), CU, 'last part', Tr)
    a0 = I.freeze(I.typed(I.read1(acc.args[1], L.entry), FLT))
    agree(ctx, 'length-of-curve', site, possible(turns(a0), CU), leaf(ZERO), CU, 'before sampling', Tr)
    a1 = possible(norm(I.freeze(I.typed(I.read1(acc.args[1], L.next), FLT)), G, Tr), gN)
    inc = lift1c(lambda t: t_sub(t, acc), a1)
    later = AND(gN, cmp_terms('>=', L.ind, ONE, True), cmp_terms('>', t_fdiv(L.ind, G.n), ZERO, False))
    sq = lambda a, b: leafof(fn_leaf('sqrt', t_add(t_mul(t_sub(a, px), t_sub(a, px)), t_mul(t_sub(b, py), t_sub(b, py)))))
    wantinc = possible(lift2c(sq, P[0], P[1]), gN)
    okk, why = same(Trig(), possible(inc, later), possible(wantinc, later), later)
    ctx.ob('length-of-curve', okk, site, 'length added per sample: ' + why)
    first = AND(gN, cmp_terms('==', L.ind, ZERO, True), NOT(cmp_terms('>', t_fdiv(L.ind, G.n), ZERO, False)))
    i0 = possible(inc, first)
    ok0 = all(x is ZERO or start_zero(x, L, G, px, py) for c, x in cases(i0) if sat(AND(first, c)))
    ctx.ob('length-of-curve', ok0, site, 'length added for the start: %s' % show(i0))


def start_zero(x, L, G, px, py):
    """the distance from the start to the sample at ratio 0"""
    y = subst(x, {L.ind: ZERO, px: ZERO, py: ZERO})
    y = quarter(turns(leaf(y))).leaf
    if y is None:
        return False
    if y.op == 'fn' and y.args[0] == 'sqrt':
        y = y.args[1]
    return Trig().zero(y)


def under(p):
    """location whose value at the head of a loop p stands for"""
    if p.op == 'phi':
        return p.args[1]
    if p.op in ('elem', 'fld'):
        b = under(p.args[0])
        return mk(p.op, b, *p.args[1:]) if b is not None else None
    return None


def expanded(ctx):
    f = ctx.one(MC + '::interpolatePath')
    names = page_lists(ctx)
    site = at(f)
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    I = ctx.interp()
    ret, st = I.run(f)
    rec = ctx.p.records[f.cls]
    this = mk('this')
    cache = mk('fld', this, field_of_type(ctx.p, rec, lambda t: (t.get('qn') or '').startswith('std::vector'), 'pages'))
    path = par(f, 0)
    size = ivar(mk('fld', path, '#size'))
    cell = lambda i: [ivar(mk('elem', mk('fld', mk('elem', path, i), 'e_'), num(k))) for k in range(3)]
    es = [e for e in I.events if e.kind in ('push', 'push_front') or e.kind in ('insert', 'erase', 'clear', 'pop', 'resize')]
    res = [e for e in es if e.kind == 'push']
    ctx.need('appends to the expanded path', len(res))
    bad = [e for e in es if e.kind != 'push' and e.obj is not None]
    for e in bad:
        ctx.ob('path-only-appended', not sat(e.g), at(e), 'the expanded path is changed by %s' % e.kind)
    objs = set(e.obj.leaf for e in res)
    ctx.ob('path-only-appended', len(objs) == 1, site, 'several lists are appended to')
    short = cmp_terms('<', size, num(2), True)
    groups = {}
    for e in res:
        groups.setdefault(tuple(l.id for l in e.loops), []).append(e)
    # paths of fewer than two poses
    base = cmp_terms('>=', size, ZERO, True)
    per = [e for e in res if len(e.loops) == 1]
    motion = [e for e in res if len(e.loops) == 2]
    tail = [e for e in res if not e.loops]
    ctx.ob('last-pose-kept', bool(tail), site, 'nothing is appended after the steps')
    is_cell = lambda e, i: AND(*[eqv(a, leaf(b), True) for a, b in zip(vec3(I, e, INT32), cell(i))])
    Ls = []
    for e in per + motion:
        if e.loops[0] not in Ls:
            Ls.append(e.loops[0])
    alone = [e for e in per if sat(AND(base, short, e.g))]
    for e in alone:
        ctx.entail('short-path-unchanged', AND(base, short, e.g), is_cell(e, e.loops[0].ind), at(e), 'a path of one pose is altered')
    for L in Ls:
        pos = AND(base, cmp_terms('>=', L.ind, ZERO, True))
        mine = [e for e in per if e.loops[0] is L and e in alone]
        if mine:
            inr = cmp_terms('<', L.ind, size, True)
            ctx.entail('short-path-unchanged', AND(pos, short, L.head.g, inr), AND(OR(*[e.g for e in mine]), L.next.g), site, 'the pose of a short path is dropped')
            ctx.entail('short-path-unchanged', AND(pos, short, OR(*[e.g for e in mine])), inr, site, 'past the end of the path')
    if not alone:
        mine = [e for e in tail if sat(AND(base, short, e.g))]
        ctx.ob('short-path-unchanged', bool(mine), site, 'the pose of a short path is dropped')
        for e in mine:
            ctx.entail('short-path-unchanged', AND(base, short, e.g), AND(cmp_terms('==', size, ONE, True), OR(is_cell(e, t_sub(size, ONE)), is_cell(e, ZERO))), at(e))
    # longer paths
    long_ = AND(base, NOT(short))
    steps = [L for L in Ls if sat(AND(long_, L.body_g))]
    if len(steps) > 1:
        following = [L for L in steps if any(e.loops[0] is L for e in motion)]
        for L in steps:
            if L not in following:
                ctx.ob('known-motion-followed', False, '%s:%s' % (L.file, L.line), 'steps are taken over without following motions for a path of several poses')
        steps = following
    if len(steps) != 1:
        raise Unsupported('%d loops over the steps of a path' % len(steps))
    L = steps[0]
    i = L.ind
    pos = AND(long_, cmp_terms('>=', i, ZERO, True))
    inr = cmp_terms('<', t_add(i, ONE), size, True)
    LI = AND(long_, cmp_terms('>=', i, ZERO, True), OR(cmp_terms('==', i, ZERO, True), cmp_terms('<', i, size, True)))
    ctx.entail('every-step-expanded', AND(pos, cmp_terms('<', i, size, True), L.body_g), inr, site, 'a step past the end of the path')
    ctx.entail('every-step-expanded', AND(pos, L.head.g, inr), L.body_g, site, 'steps at the end of the path are dropped')
    a, b = cell(i), cell(t_add(i, ONE))
    still = AND(cmp_terms('==', a[0], b[0], True), cmp_terms('==', a[1], b[1], True))
    known = known_guard(I, cache, L, a, b, res)
    if known is None:
        ctx.ob('known-motion-followed', False, site, 'motions are followed without looking for them, or looked for elsewhere')
        return
    own = [e for e in per if e.loops[0] is L]
    turn = AND(pos, inr, L.body_g)
    ctx.entail('turn-keeps-pose', AND(turn, OR(still, NOT(known))), OR(*[e.g for e in own]) if own else FALSE, site, 'the start pose of a turn on the spot or of an unknown motion is dropped')
    for e in own:
        ctx.entail('turn-keeps-pose', AND(turn, e.g), OR(still, NOT(known)), at(e), 'a pose is added to a known motion')
        ctx.entail('turn-keeps-pose', AND(turn, e.g), is_cell(e, i), at(e), 'another pose than the start of the step')
        only(ctx, 'turn-keeps-pose', own, e)
    mv = [e for e in motion if e.loops[0] is L]
    if not mv:
        ctx.ob('known-motion-followed', False, site, 'known motions are not expanded')
        return
    K = mv[0].loops[1]
    if any(e.loops[1] is not K for e in mv):
        raise Unsupported('several loops over the samples of a motion')
    go = AND(turn, NOT(still), known, cmp_terms('>=', K.ind, ZERO, True))
    szs = [t for t in terms_in(K.body_g, 'fld') if t.args[1] == '#size' and isinstance(t.args[0], T) and t.args[0].op == 'fld' and t.args[0].args[1] == names['real'] and page_ok(t.args[0].args[0], cache, a, b)]
    if not szs:
        ctx.ob('known-motion-followed', False, site, 'the samples of another motion are followed')
        return
    for s in szs:
        int_terms.add(s)
    wrap = page_guards(szs, a)
    for s in szs:
        H = AND(go, wrap(s))
        ink = cmp_terms('<', K.ind, ivar(s), True)
        ctx.entail('known-motion-followed', AND(H, K.body_g), ink, site, 'past the samples of a motion')
        ctx.entail('known-motion-followed', AND(H, K.head.g, ink), AND(K.body_g, OR(*[e.g for e in mv]), K.next.g), site, 'samples of a motion are dropped')
        q = mk('elem', s.args[0], K.ind)
        qe = [mk('elem', mk('fld', q, 'e_'), num(k)) for k in range(3)]
        for e in mv:
            v = vec3(I, e, FLT)
            for k, w in enumerate((t_add(a[0], qe[0]), t_add(a[1], qe[1]), qe[2])):
                agree(ctx, 'known-motion-followed', at(e), possible(v[k], AND(H, e.g)), leaf(w), AND(H, e.g), 'component %d' % k)
    for e in mv:
        ctx.entail('known-motion-followed', AND(turn, e.g), AND(NOT(still), known), at(e), 'samples are added to a turn on the spot')
        only(ctx, 'known-motion-followed', mv, e)
    # the loop goes on, and the last pose follows it
    ends = AND(turn, NOT(exists_other(L.next.g, [i])))
    ctx.ob('every-step-expanded', not sat(ends), site, 'expansion ends early: ' + witness(ends))
    fin = [e for e in tail if sat(AND(long_, e.g))]
    after = AND(long_, st.g)
    ctx.entail('last-pose-kept', after, OR(*[e.g for e in fin]) if fin else FALSE, site, 'the last pose is dropped')
    for e in fin:
        ctx.entail('last-pose-kept', AND(long_, e.g), is_cell(e, t_sub(size, ONE)), at(e), 'another pose ends the path')
        only(ctx, 'last-pose-kept', fin, e)
        ctx.ob('last-pose-kept', e.seq > max(x.seq for x in own + mv) if hasattr(e, 'seq') else I.events.index(e) > max(I.events.index(x) for x in own + mv), at(e), 'poses follow the last pose')
    r = I.freeze(ret)
    sizes = terms_in(r, 'phi')


def page_idx(t):
    """heading whose page the index t is"""
    return t


def page_ok(p, cache, a, b):
    """p is the motion from cell a to cell b"""
    while p.op == 'fld' and p.args[1] in ('second',):
        p = p.args[0]
    if p.op != 'elem' or p.args[1].op != 'vec' or len(p.args[1].args) != 3 or p.args[0].op != 'elem' or p.args[0].args[0] is not cache:
        return False
    k = p.args[1].args
    want = (t_sub(b[0], a[0]), t_sub(b[1], a[1]), b[2])
    return all(x is y for x, y in zip(k, want)) and heading(p.args[0].args[1]) is a[2]


def heading(t):
    """x of ((x mod n) + n) or (x mod n)"""
    t = unU(t)
    ms = [m for m in terms_in(t, 'imod')]
    if len(ms) != 1:
        return t
    m = ms[0]
    rest = t_sub(t, m)
    if rest is ZERO or rest is m.args[1]:
        return m.args[0]
    return None


def page_guards(szs, a):
    """heading normalisation case that selects the page of s"""
    def g(s):
        t = s.args[0]
        idx = [x for x in terms_in(t, 'elem') if x.args[0].op == 'fld' and terms_in(x.args[1], 'imod')]
        for x in idx:
            i = unU(x.args[1])
            m = terms_in(i, 'imod')[0]
            int_terms.add(m)
            neg = cmp_terms('<', m, ZERO, True)
            return NOT(neg) if i is m else neg
        return TRUE
    return g


def known_guard(I, cache, L, a, b, res):
    """guard under which the motion from a to b is in the cache"""
    hs = set()
    for e in res:
        for x in dvars(e.g):
            t = atoms[x]
            if t.op == 'elem' and t.args[0].op == 'fld' and t.args[0].args[1] == '#has':
                hs.add(t)
    out = FALSE
    good = False
    for h in hs:
        pg = h.args[0].args[0]
        k = h.args[1].args if h.args[1].op == 'vec' else ()
        want = (t_sub(b[0], a[0]), t_sub(b[1], a[1]), b[2])
        if len(k) != 3 or not all(x is y for x, y in zip(k, want)) or pg.op != 'elem' or pg.args[0] is not cache or heading(pg.args[1]) is not a[2]:
            continue
        i = unU(pg.args[1])
        ms = terms_in(i, 'imod')
        if ms:
            int_terms.add(ms[0])
            neg = cmp_terms('<', ms[0], ZERO, True)
            out = OR(out, AND(NOT(neg) if i is ms[0] else neg, TM.bvar(h)))
        else:
            out = OR(out, TM.bvar(h))
        good = True
    return out if good else None
