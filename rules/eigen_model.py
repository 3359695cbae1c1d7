"""Component view of Eigen 2-vectors: rewrites opaque Eigen calls into arithmetic on components."""
from core import *


def short(t):
    n = t.args[0]
    return n.rsplit('::', 1)[-1]


def is_eig(t):
    return t.op in ('call', 'ctor') and isinstance(t.args[0], str) and t.args[0].startswith('Eigen')


def vec(t, dim=2):
    """components of vector term t (list of T), or None"""
    if t.op == 'vec':
        return list(t.args)
    if t.op == 'ctor' and is_eig(t):
        a = [x for x in t.args[1:] if isinstance(x, T)]
        if len(a) == 1:
            return vec(a[0], dim)
        if len(a) == dim:
            return [scal(x) for x in a]
        return None
    if is_eig(t):
        n = short(t)
        a = [x for x in t.args[1:] if isinstance(x, T)]
        if n in ('operator+', 'operator-') and len(a) == 2:
            x, y = vec(a[0], dim), vec(a[1], dim)
            return [(t_add if n == 'operator+' else t_sub)(p, q) for p, q in zip(x, y)]
        if n == 'operator-' and len(a) == 1:
            return [t_neg(p) for p in vec(a[0], dim)]
        if n in ('operator*', 'operator/') and len(a) == 2:
            if isvec(a[0]):
                x, s = vec(a[0], dim), scal(a[1])
            else:
                x, s = vec(a[1], dim), scal(a[0])
            return [t_mul(p, s) if n == 'operator*' else t_fdiv(p, s) for p in x]
        if n in ('eval', 'derived') and len(a) == 1:
            return vec(a[0], dim)
        if n == 'normalized' and len(a) == 1:
            x = vec(a[0], dim)
            l = fn_leaf('sqrt', dot(x, x))
            l = leafof(l)
            return [t_fdiv(p, l) for p in x]
    if t.op in ('num', 'poly', 'fn'):
        return None
    out = []
    for i in range(dim):
        out.append(mk('elem', t, num(i)))
    return out


def leafof(x):
    return x.leaf if isinstance(x, N) else x


def isvec(t):
    if t.op in ('num', 'poly', 'fn'):
        return False
    if is_eig(t):
        n = short(t)
        if n in ('norm', 'squaredNorm', 'dot', 'operator[]', 'operator()', 'x', 'y', 'coeff', 'stableNorm', 'sum'):
            return False
        return True
    if t.op == 'par' and str(t.args[-1]).endswith('~f'):
        return False
    if t.op == 'par':
        return True
    return t.op in ('vec', 'fld')


def dot(x, y):
    r = ZERO
    for p, q in zip(x, y):
        r = t_add(r, t_mul(p, q))
    return r


def scal(t, memo=None):
    """scalar term with the Eigen calls inside rewritten"""
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a, p in m:
                b = scal(a)
                for _ in range(abs(p)):
                    x = t_mul(x, b) if p > 0 else t_fdiv(x, b)
            out = t_add(out, x)
        return out
    if t.op == 'fn':
        return leafof(fn_leaf(t.args[0], *[scal(x) if isinstance(x, T) else x for x in t.args[1:]]))
    if is_eig(t) and t.op == 'call':
        n = short(t)
        a = [x for x in t.args[1:] if isinstance(x, T)]
        if n in ('norm', 'stableNorm') and len(a) == 1:
            x = vec(a[0])
            return leafof(fn_leaf('sqrt', dot(x, x)))
        if n == 'squaredNorm' and len(a) == 1:
            x = vec(a[0])
            return dot(x, x)
        if n == 'dot' and len(a) == 2:
            return dot(vec(a[0]), vec(a[1]))
        if n in ('operator[]', 'operator()', 'coeff') and len(a) == 2 and isnum(a[1]):
            return vec(a[0])[int(a[1].args[0])]
        if n in ('x', 'y') and len(a) == 1:
            return vec(a[0])[0 if n == 'x' else 1]
    return t


def rewrite(v, fn=scal):
    """guarded value with leaves and comparison atoms rewritten"""
    memo = {}

    def g(n):
        if n.leaf is not None:
            return leaf(fn(n.leaf)) if n.leaf.op not in ('true', 'false') else n
        if n.id in memo:
            return memo[n.id]
        a = TM.atoms[n.var]
        c = ratom(a, fn)
        r = ite(c, g(n.hi), g(n.lo))
        memo[n.id] = r
        return r
    return g(v)


def ratom(a, fn):
    if a.op in ('lt', 'rle', 'le'):
        return cmp_terms('<' if a.op == 'lt' else '<=', fn(a.args[0]), num(a.args[1]), a.op == 'le')
    if a.op == 'eqn':
        return cmp_terms('==', fn(a.args[0]), num(a.args[1]), a.args[2])
    if a.op == 'isfin':
        return bvar(mk('isfin', fn(a.args[0])))
    return bvar(a)
