"""Component view of Eigen 3-vectors, quaternions and rigid transforms in opaque call terms."""
from core import *
from eigen_model import leafof, ratom


class NoView(Exception):
    pass


def kind(t):
    if t.op in ('call', 'ctor', 'mut') and isinstance(t.args[0], str) and t.args[0].startswith('Eigen'):
        return t.args[0].rsplit('::', 1)[-1]
    return None


def quat_mul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    m = t_mul
    return [sum_(m(w, p), t_neg(m(x, q)), t_neg(m(y, r)), t_neg(m(z, s))),
            sum_(m(w, q), m(x, p), m(y, s), t_neg(m(z, r))),
            sum_(m(w, r), t_neg(m(x, s)), m(y, p), m(z, q)),
            sum_(m(w, s), m(x, r), t_neg(m(y, q)), m(z, p))]


def sum_(*xs):
    r = ZERO
    for x in xs:
        r = t_add(r, x)
    return r


def rot(q, v):
    """q v q*: rotation of v by the unit quaternion q"""
    p = quat_mul(quat_mul(q, [ZERO] + list(v)), [q[0]] + [t_neg(x) for x in q[1:]])
    return p[1:]


def ev(t):
    """(sort, components)"""
    k = kind(t)
    if t.op == 'fn':
        return 's', leafof(fn_leaf(t.args[0], *[scal(x) if isinstance(x, T) else x for x in t.args[1:]]))
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a, p in m:
                b = scal(a)
                for _ in range(abs(p)):
                    x = t_mul(x, b) if p > 0 else t_fdiv(x, b)
            out = t_add(out, x)
        return 's', out
    if k is None:
        return 's', t
    a = [x for x in t.args[1:] if isinstance(x, T)]
    if t.op == 'ctor':
        if len(a) == 1:
            return ev(a[0])
        if k == 'Matrix' and len(a) == 3:
            return 'v', [scal(x) for x in a]
        if k == 'Quaternion' and len(a) == 4:
            return 'q', [scal(x) for x in a]
        raise NoView(show(t)[:100])
    if k in ('x', 'y', 'z', 'w') and len(a) == 1:
        s, c = ev(a[0])
        if s == 'v':
            return 's', c['xyz'.index(k)]
        if s == 'q':
            return 's', c['wxyz'.index(k)]
    if k in ('operator[]', 'operator()', 'coeff') and len(a) == 2 and isnum(a[1]):
        s, c = ev(a[0])
        if s == 'v':
            return 's', c[int(a[1].args[0])]
    if k in ('inverse', 'conjugate') and len(a) == 1:
        s, c = ev(a[0])
        if s == 'q':
            return 'q', [c[0]] + [t_neg(x) for x in c[1:]]
    if k in ('normalized', 'eval', 'derived', 'matrix', 'array') and len(a) == 1:
        return ev(a[0])
    if k in ('operator+', 'operator-', 'operator+=', 'operator-=') and len(a) == 2:
        (s, x), (s2, y) = ev(a[0]), ev(a[1])
        if s == s2 == 'v':
            f = t_add if '+' in k else t_sub
            return 'v', [f(p, q) for p, q in zip(x, y)]
    if k == 'operator-' and len(a) == 1:
        s, x = ev(a[0])
        if s == 'v':
            return 'v', [t_neg(p) for p in x]
    if k in ('operator*', 'operator*=', '_transformVector', 'operator/', 'operator/=') and len(a) == 2:
        (s, x), (s2, y) = ev(a[0]), ev(a[1])
        if '/' in k and s == 'v' and s2 == 's':
            return 'v', [t_fdiv(p, y) for p in x]
        if '/' not in k:
            if s == 'q' and s2 == 'q':
                return 'q', quat_mul(x, y)
            if s == 'q' and s2 == 'v':
                return 'v', rot(x, y)
            if s == 'v' and s2 == 's':
                return 'v', [t_mul(p, y) for p in x]
            if s == 's' and s2 == 'v':
                return 'v', [t_mul(p, x) for p in y]
    raise NoView(show(t)[:100])


def scal(t):
    s, c = ev(t)
    if s != 's':
        raise NoView(show(t)[:100])
    return c


def expand(t, memo=None):
    """guarded values inside the arguments of Eigen calls pulled out"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = leaf(t)
    if t.op == 'poly':
        if any(isinstance(x, N) for x in subterms(t)):
            r = leaf(ZERO)
            for m, c in t.args[0]:
                x = leaf(num(c))
                for b, p in m:
                    y = expand(b, memo)
                    for _ in range(abs(p)):
                        x = lift2c(t_mul if p > 0 else t_fdiv, x, y)
                r = lift2c(t_add, r, x)
    elif kind(t) is not None:
        def arg(a):
            if isinstance(a, T):
                return expand(a, memo)
            if isinstance(a, N):
                return lift1c(lambda x: expand(x, memo), a) if a.leaf is None or a.leaf.op not in ('true', 'false') else a
            return None
        vs = [arg(a) for a in t.args]
        ix = [i for i, v in enumerate(vs) if v is not None]
        if any(vs[i].leaf is None or vs[i].leaf is not t.args[i] for i in ix):
            acc = leaf(mk('tup'))
            for i in ix:
                acc = lift2(lambda p, x: leaf(mk('tup', *(p.args + (x,)))), acc, vs[i])

            def build(p):
                a = list(t.args)
                for i, x in zip(ix, p.args):
                    a[i] = x
                return leaf(mk(t.op, *a))
            r = lift1(build, acc)
    memo[t] = r
    return r


def rewrite(v):
    memo, em = {}, {}

    def one(t):
        try:
            return scal(t)
        except NoView:
            return t

    def g(n):
        if n.leaf is not None:
            return lift1c(one, expand(n.leaf, em)) if n.leaf.op not in ('true', 'false') else n
        if n.id not in memo:
            memo[n.id] = ite(ratom(TM.atoms[n.var], one), g(n.hi), g(n.lo))
        return memo[n.id]
    return g(v)
