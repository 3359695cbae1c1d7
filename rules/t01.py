"""Velocity and acceleration limiter, clipping, angle normalisation and time-optimal speed."""
from core import *
from numlib import *
UNITS = [os.path.join(VERIF, 'harness', 'ctl.cpp')]
NS = 'nn_harness::'
TT = 'trajectory_tracker::'
EXPLANATION = ('Value summaries of the limiter operations over a symbolic held value and symbolic limits; every leaf of the gated result is bounded by '
               'linear-arithmetic entailment and the whole result compared with the nearest admissible value. Loops of the angle normalisation are '
               'summarised by induction terms; the result is compared modulo one turn.')
ASSUMPTIONS = ['limits and time step are not negative', 'real arithmetic: float rounding is not modelled']


def ge0(t):
    return cmp_terms('>=', t, ZERO, False)


def bound(ctx, rule, where, v, lo, hi, g, what):
    for gv, t in cases(v):
        ctx.entail(rule, AND(g, gv), AND(cmp_terms('>=', t, lo, False), cmp_terms('<=', t, hi, False)), where, '%s: %s' % (what, show(t)))


def clampref(v, lo, hi):
    """nearest value to v in [lo, hi]"""
    return lift1c(lambda x: ite(cmp_terms('>', x, hi, False), leaf(hi), ite(cmp_terms('<', x, lo, False), leaf(lo), leaf(x))), v)


def check(ctx):
    for part in (clipping, limiter, angle, optimal):
        ctx.part(part)


def clipping(ctx):
    I, f, r, st = summary(ctx, TT + 'clip')
    v, m = args(f)
    g = AND(st.g, ge0(m))
    ctx.entail('clip-total', ge0(m), st.g, at(f))
    agree(ctx, 'clip-is-nearest', at(f), lib(r), clampref(leaf(v), t_neg(m), m), g)


def limiter(ctx):
    _, f, p, _ = summary(ctx, NS + 'lim_get')
    if p.leaf is None:
        raise AnchorMissing('value held by the limiter')
    prev = p.leaf
    site = at(ctx.one(TT + 'VelAccLimitter::set'))
    _, f, r, st = summary(ctx, NS + 'lim_ret')
    _, f2, r2, _ = summary(ctx, NS + 'lim_set_get')
    _, v, vel, acc, dt = args(f)
    step = t_mul(acc, dt)
    r, r2 = lib(r), lib(r2)
    pre = AND(ge0(vel), ge0(step), ge0(acc), ge0(dt))
    fin = finite(r)
    ok = AND(pre, fin)
    ctx.entail('limiter-total', pre, st.g, site)
    agree(ctx, 'limiter-holds-what-it-returned', site, r2, r)
    bound(ctx, 'limiter-acceleration', site, r, t_sub(prev, step), t_add(prev, step), ok, 'change exceeds the acceleration limit')
    inside = AND(cmp_terms('<=', prev, vel, False), cmp_terms('>=', prev, t_neg(vel), False))
    bound(ctx, 'limiter-velocity', site, r, t_neg(vel), vel, AND(ok, inside), 'exceeds the velocity limit')
    c = clampref(leaf(v), t_neg(vel), vel)
    want = clampref(c, t_sub(prev, step), t_add(prev, step))
    agree(ctx, 'limiter-reaches-the-request', site, r, want, ok)
    for g, t in cases(r):
        if isnum(t):
            continue
        ctx.entail('limiter-result-finite', AND(pre, g), AND(NOT(bvar(mk('isnan', t))), NOT(bvar(mk('isinf', t)))), site, 'returns ' + show(t))
    # a non-finite candidate stops
    for gw, w in cases(want):
        for o in ('isnan', 'isinf'):
            G = AND(pre, gw, bvar(mk(o, w)))
            for g, t in cases(r):
                # (two sides of a comparison that meet exactly are finite)
                if sat(AND(G, g)) and (t is ZERO or sat(AND(G, g, NOT(cmp_terms('==', t, w, False))))):
                    ctx.ob('limiter-stops-on-non-finite', t is ZERO, site, 'returns %s although %s is not finite' % (show(t), show(w)))
    _, f, ri, _ = summary(ctx, NS + 'lim_incr')
    _, _, rig, _ = summary(ctx, NS + 'lim_incr_get')
    _, dv, vel2, acc2, dt2 = args(f)
    site2 = at(ctx.one(TT + 'VelAccLimitter::increment'))
    step2 = t_mul(acc2, dt2)
    want = clampref(clampref(leaf(t_add(prev, dv)), t_neg(vel2), vel2), t_sub(prev, step2), t_add(prev, step2))
    ri, rig = lib(ri), lib(rig)
    agree(ctx, 'increment-adds-to-held-value', site2, ri, want, AND(ge0(vel2), ge0(acc2), ge0(dt2), ge0(step2), finite(ri)))
    agree(ctx, 'increment-holds-what-it-returned', site2, rig, ri)
    _, _, rc, _ = summary(ctx, NS + 'lim_clear')
    agree(ctx, 'clear-holds-zero', at(ctx.one(TT + 'VelAccLimitter::clear')), rc, leaf(ZERO))
    _, f, rf, _ = summary(ctx, NS + 'lim_first')
    v3, vel3, acc3, dt3 = args(f)
    step3 = t_mul(acc3, dt3)
    rf = lib(rf)
    want = clampref(clampref(leaf(v3), t_neg(vel3), vel3), t_neg(step3), step3)
    agree(ctx, 'new-limiter-starts-at-rest', site, rf, want, AND(ge0(vel3), ge0(acc3), ge0(dt3), ge0(step3), finite(rf)))


def angle(ctx):
    I, f, r, st = summary(ctx, TT + 'angleNormalized')
    a, = args(f)
    site = at(f)
    r = lib(r)
    g0 = lib(AND(st.g, last_iteration(I)))
    two = num(2 * PI)
    n = 0
    for g, t in cases(r):
        G = AND(g0, g)
        if not sat(G):
            continue
        n += 1
        k = t_fdiv(t_sub(t, a), two)
        whole = all(near_int(c) and m and all(p > 0 and (is_int(x) or x.op == 'ind') for x, p in m) for m, c in topoly(k).items())
        ctx.ob('angle-congruent', whole, site, 'changes the angle by %s turns' % show(k))
        # tolerate that the constant pi is itself rounded
        lim = num(PI + Fraction(1, 10**6))
        ctx.entail('angle-range', G, AND(cmp_terms('<=', t, lim, False), cmp_terms('>=', t, t_neg(lim), False)), site, 'result ' + show(t))
    ctx.need('angle normalisation results', n)


def optimal(ctx):
    I, f, r, st = summary(ctx, TT + 'timeOptimalControl')
    a, acc = args(f)
    r = lib(r)
    site = at(f)
    g = AND(st.g, cmp_terms('>', acc, ZERO, False))
    for name, gg, sgn in (('positive', cmp_terms('>', a, ZERO, False), -1), ('negative', cmp_terms('<', a, ZERO, False), 1)):
        G = AND(g, gg)
        # the sign of the product follows from the signs of its factors
        prod = t_mul(a, acc)
        G = AND(G, cmp_terms('>' if sgn < 0 else '<', prod, ZERO, False))
        mag = t_mul(num(-2 * sgn), prod)
        want = leaf(t_mul(num(sgn), leafof(fn_leaf('sqrt', mag))))
        agree(ctx, 'optimal-speed-%s-angle' % name, site, r, want, G)
    at0 = AND(g, cmp_terms('==', a, ZERO, False))
    for gv, t in cases(r):
        G = AND(at0, gv)
        if sat(G):
            z = subst_zero(t, a)
            ctx.ob('optimal-speed-zero-angle', z is ZERO, site, 'is %s for a zero angle' % show(z))


def subst_zero(t, a):
    if t is a:
        return ZERO
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for b, p in m:
                y = subst_zero(b, a)
                for _ in range(abs(p)):
                    x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
            out = t_add(out, x)
        return out
    if t.op == 'fn':
        return leafof(fn_leaf(t.args[0], *[subst_zero(x, a) for x in t.args[1:]]))
    return t
