"""Planar line geometry used by the path tracker."""
from core import *
from numlib import *
import eigen_model as EM
UNITS = [os.path.join(VERIF, 'harness', 'ctl.cpp')]
TT = 'trajectory_tracker::'
EXPLANATION = ('Value summaries of the planar geometry helpers, rewritten to vector components, are compared as exact algebraic expressions '
               '(cross-multiplied rational functions, square roots squared away) with the geometric definitions, case by case of the gating conditions.')
ASSUMPTIONS = ['real arithmetic: float rounding is not modelled', 'points a and b differ where a line through them is needed']


def V(f, i):
    p = par(f, i)
    return [mk('elem', p, num(k)) for k in range(2)]


def sub2(x, y):
    return [t_sub(p, q) for p, q in zip(x, y)]


def cross(x, y):
    return t_sub(t_mul(x[0], y[1]), t_mul(x[1], y[0]))


def norm(x):
    return leafof(fn_leaf('sqrt', EM.dot(x, x)))


def comps(v):
    return rewrite(v)


def check(ctx):
    n = 0
    for name, ref in (('curv3p', curv), ('cross2', cr), ('lineDistance', ld), ('lineStripDistanceSigned', lsd), ('lineStripDistance', lsda),
                      ('projection2d', None)):
        I, f, r, st = summary(ctx, TT + name)
        a = [V(f, i) for i in range(len(f.params))]
        n += 1
        if name == 'projection2d':
            for k in range(2):
                got = rewrite(r, lambda t: EM.vec(t)[k])
                d = sub2(a[1], a[0])
                s = t_fdiv(EM.dot(d, sub2(a[2], a[0])), EM.dot(d, d))
                want = leaf(t_add(a[0][k], t_mul(s, d[k])))
                agree(ctx, 'projection-on-line', at(f), lib(got), want, lib(rewrite(st.g)))
            continue
        got = lib(rewrite(r))
        mp = frame(f) if name != 'cross2' else {}
        agree(ctx, 'geometry-' + name, at(f), subst(got, mp), subst(ref(*a), mp), subst(lib(rewrite(st.g)), mp), name)
    ctx.need('geometry functions', n, 6)


def frame(f):
    """change of variables: points relative to the first one (exact, keeps the polynomials small)"""
    mp = {}
    a = V(f, 0)
    for i in range(1, len(f.params)):
        for k, t in enumerate(V(f, i)):
            mp[t] = t_add(a[k], mk('par', '%s-%s.%d' % (par_name(f, i), par_name(f, 0), k)))
    return mp


def curv(a, b, c):
    """signed curvature of the circle through three points: 4*area / product of the side lengths"""
    num_ = t_mul(num(2), cross(sub2(b, a), sub2(c, a)))
    den = t_mul(t_mul(norm(sub2(b, a)), norm(sub2(b, c))), norm(sub2(c, a)))
    return leaf(t_fdiv(num_, den))


def cr(a, b):
    return leaf(cross(a, b))


def ldt(a, b, c):
    return t_fdiv(cross(sub2(b, a), sub2(c, a)), norm(sub2(b, a)))


def ld(a, b, c):
    return leaf(ldt(a, b, c))


def lsd(a, b, c):
    before = cmp_terms('<=', EM.dot(sub2(b, a), sub2(c, a)), ZERO, False)
    after = cmp_terms('<=', EM.dot(sub2(a, b), sub2(c, b)), ZERO, False)
    return ite(before, leaf(t_neg(norm(sub2(c, a)))), ite(after, leaf(norm(sub2(c, b))), absval(ldt(a, b, c))))


def lsda(a, b, c):
    before = cmp_terms('<=', EM.dot(sub2(b, a), sub2(c, a)), ZERO, False)
    after = cmp_terms('<=', EM.dot(sub2(a, b), sub2(c, b)), ZERO, False)
    return ite(before, leaf(norm(sub2(c, a))), ite(after, leaf(norm(sub2(c, b))), absval(ldt(a, b, c))))
