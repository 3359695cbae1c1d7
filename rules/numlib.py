"""Summaries of harness functions and rewriting of library functions into arithmetic for comparison."""
from core import *
from rat import Rat, same, pm
from eigen_model import scal, rewrite, leafof

PI = Fraction('3.141592653589793')


def summary(ctx, qn, pred=None, hooks=None):
    f = ctx.one(qn, pred)
    IN.int_terms.clear()
    IN.unsigned_terms.clear()
    I = ctx.interp()
    I.hooks = hooks or {}
    r, st = I.run(f)
    return I, f, (I.freeze(r) if r is not None else None), st


def args(f):
    return [par(f, i) for i in range(len(f.params))]


def nearest(x):
    """integer nearest to x"""
    t = leafof(fn_leaf('round', x))
    if t.op == 'fn':
        int_terms.add(t)
    return t


def absval(t):
    if t.op == 'fn' and t.args[0] in ('sqrt', 'abs', 'hypot'):
        return leaf(t)
    return ite(cmp_terms('<', t, ZERO, False), leaf(t_neg(t)), leaf(t))


def lib1(t):
    """library calls inside a scalar term as arithmetic on integer-valued atoms; guarded result"""
    if t.op == 'poly':
        out = leaf(ZERO)
        for m, c in t.args[0]:
            x = leaf(num(c))
            for a, p in m:
                b = lib1(a)
                for _ in range(abs(p)):
                    x = lift2c(t_mul if p > 0 else t_fdiv, x, b)
            out = lift2c(t_add, out, x)
        return out
    if t.op == 'fn':
        n = t.args[0]
        xs = [lib1(x) for x in t.args[1:] if isinstance(x, T)]
        if n == 'remainder' and len(xs) == 2:
            return lift2c(lambda x, m: t_sub(x, t_mul(m, nearest(t_fdiv(x, m)))), xs[0], xs[1])
        if n == 'fmod' and len(xs) == 2:
            def fm(x, m):
                q = t_fdiv(x, m)
                f, c = leafof(fn_leaf('floor', q)), leafof(fn_leaf('ceil', q))
                for z in (f, c):
                    if z.op == 'fn':
                        int_terms.add(z)
                return ite(cmp_terms('>=', q, ZERO, False), leaf(t_sub(x, t_mul(m, f))), leaf(t_sub(x, t_mul(m, c))))
            return lift2c(fm, xs[0], xs[1])
        if n == 'copysign' and len(xs) == 2:
            def cs(x, y):
                a = absval(x)
                return ite(cmp_terms('<', y, ZERO, False), lift1c(t_neg, a), a)
            return lift2c(cs, xs[0], xs[1])
        if n in ('floor', 'ceil', 'round', 'rint') and len(xs) == 1:
            def fl(x):
                r = leafof(fn_leaf('round' if n == 'rint' else n, x))
                if r.op == 'fn':
                    int_terms.add(r)
                return r
            return lift1c(fl, xs[0])
        return liftn(lambda ts: leafof(fn_leaf(n, *ts)), xs)
    return leaf(t)


def lib(v):
    """guarded value with library calls in leaves and comparisons made explicit"""
    memo = {}

    def atom(a):
        if a.op in ('lt', 'rle', 'le'):
            return lift1(lambda t: cmp_terms('<' if a.op == 'lt' else '<=', t, num(a.args[1]), a.op == 'le'), lib1(a.args[0]))
        if a.op == 'eqn':
            return lift1(lambda t: cmp_terms('==', t, num(a.args[1]), a.args[2]), lib1(a.args[0]))
        return bvar(a)

    def g(n):
        if n.leaf is not None:
            return n if n.leaf.op in ('true', 'false') else lib1(n.leaf)
        if n.id in memo:
            return memo[n.id]
        r = ite(atom(TM.atoms[n.var]), g(n.hi), g(n.lo))
        memo[n.id] = r
        return r
    return g(v)


def finite(v):
    """guard: none of the values tested for finiteness inside v is infinite or NaN"""
    g = TRUE
    for x in dvars(v):
        a = TM.atoms[x]
        if a.op in ('isnan', 'isinf'):
            g = AND(g, NOT(bvar(a)))
    return g


def agree(ctx, rule, where, got, want, g=TRUE, what='', R=None):
    ok, why = same(R or Rat(), got, want, g)
    return ctx.ob(rule, ok, where, ('%s: ' % what if what else '') + why)


def subst(v, mp):
    """terms or guarded values with atoms replaced (mp: T -> T)"""
    tm = {}

    def st(t):
        if t in mp:
            return mp[t]
        if t in tm:
            return tm[t]
        r = t
        if t.op == 'poly':
            r = ZERO
            for m, c in t.args[0]:
                x = num(c)
                for b, p in m:
                    y = st(b)
                    for _ in range(abs(p)):
                        x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
                r = t_add(r, x)
        elif t.args and t.op not in ('num', 'recv'):
            a = [st(x) if isinstance(x, T) else x for x in t.args]
            if any(p is not q for p, q in zip(a, t.args)):
                if t.op == 'fn':
                    r = leafof(fn_leaf(a[0], *a[1:]))
                else:
                    r = mk(t.op, *a)
                if t in int_terms:
                    int_terms.add(r)
        tm[t] = r
        return r
    if isinstance(v, T):
        return st(v)
    gm = {}

    def at_(a):
        if a.op in ('lt', 'rle', 'le'):
            return cmp_terms('<' if a.op == 'lt' else '<=', st(a.args[0]), num(a.args[1]), a.op == 'le')
        if a.op == 'eqn':
            return cmp_terms('==', st(a.args[0]), num(a.args[1]), a.args[2])
        return bvar(st(a))

    def g(n):
        if n.leaf is not None:
            return n if n.leaf.op in ('true', 'false') else leaf(st(n.leaf))
        if n.id in gm:
            return gm[n.id]
        r = ite(at_(TM.atoms[n.var]), g(n.hi), g(n.lo))
        gm[n.id] = r
        return r
    return g(v)


def last_iteration(I):
    """what is known after loops: either no iteration ran, or the last one had been entered"""
    g = TRUE
    for L in I.loop_info:
        if L.next is None:
            continue
        prev = subst(L.next.g, {L.ind: t_sub(L.ind, ONE)})
        g = AND(g, OR(cmp_terms('<=', L.ind, ZERO, True), prev))
    return g


def near_int(c, eps=Fraction(1, 10**9)):
    r = round(c)
    return abs(c - r) <= eps and r != 0
