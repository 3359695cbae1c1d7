"""Loops over cells: effects of one iteration re-expressed per cell by solving the index expressions for the induction terms."""
from core import *
from numlib import subst

CELL = [mk('par', 'cell%d' % i) for i in range(3)]
for _c in CELL:
    int_terms.add(_c)


def cellv(n):
    for c in CELL:
        int_terms.add(c)
    return CELL[:n]


def solve(keys, loops, n):
    """keys: index terms of one case; {ind: term over the cell symbols}, or None"""
    inds = [l.ind for l in loops]
    cv = cellv(n)
    mp = {}
    todo = list(range(len(keys)))
    progress = True
    while progress and len(mp) < len(inds):
        progress = False
        for k in list(todo):
            t = subst(keys[k], mp) if mp else keys[k]
            p = topoly(t)
            own = [i for i in inds if i not in mp and i in subterms(t)]
            if len(own) != 1:
                continue
            i = own[0]
            c = p.get(((i, 1),))
            if c not in (1, -1):
                continue
            rest = t_sub(t, t_mul(num(c), i))
            if i in subterms(rest):
                continue
            mp[i] = t_mul(num(c), t_sub(cv[k], rest))
            todo.remove(k)
            progress = True
    if len(mp) < len(inds):
        return None
    # components that are not indices: fixed
    fixed = TRUE
    for k in todo:
        fixed = AND(fixed, cmp_terms('==', cv[k], subst(keys[k], mp), True))
    return mp, fixed


class Visit(object):
    """one way a cell is reached: g (over the cell symbols) and the mapping of the loops' induction terms"""
    __slots__ = ('g', 'mp', 'loops')


def nonneg(mp):
    g = TRUE
    for i, t in mp.items():
        g = AND(g, cmp_terms('>=', t, ZERO, True))
    return g


def ind_nonneg(g, loops):
    for l in loops:
        g = AND(g, cmp_terms('>=', l.ind, ZERO, True))
    return g


def visits(keys, g, loops):
    """ways a cell is touched by an effect with index values keys (guarded) under g inside the loop nest"""
    n = len(keys)
    out = []

    def rec(k, gg, acc):
        if not sat(gg):
            return
        if k == n:
            r = solve(acc, loops, n)
            if r is None:
                raise Unsupported('cell index %s is not one-to-one in the loop' % ', '.join(show(a) for a in acc))
            v = Visit()
            v.mp, fixed = r
            v.loops = loops
            v.g = AND(subst(gg, v.mp), fixed, nonneg(v.mp))
            if sat(v.g):
                out.append(v)
            return
        for gk, t in cases(keys[k]):
            rec(k + 1, AND(gg, gk), acc + [t])
    rec(0, g, [])
    return out


def ended(l, loops):
    """iteration guard of l under which no further iteration follows; inner loops are taken to end when their condition fails"""
    g = l.next.g if l.next is not None else FALSE
    keep = [o.ind for o in loops[:loops.index(l) + 1]]
    return AND(l.body_g, NOT(exists_other(g, keep)))


def leaves_all(l):
    """iteration guard of l under which control leaves the function (or an outer loop) from inside the body"""
    g = l.next.g if l.next is not None else FALSE
    for x in l.exits:
        if x is not None:
            g = OR(g, x.g)
    return AND(l.body_g, NOT(exists_other(g, [l.ind] + l_outer(l, g))))


def l_outer(l, g):
    return [t for t in subterms(g) if isinstance(t, T) and t.op == 'ind' and t.args[0] < l.ind.args[0]]


def fresh_ind(l):
    j = mk('par', 'iter%d' % l.id)
    int_terms.add(j)
    return j


def stops(loops, mp, required):
    """required cells that an earlier iteration may cut off: (loop, guard) pairs that are satisfiable"""
    out = []
    for k, l in enumerate(loops):
        # an earlier iteration of l, in the same iteration of the loops around it, is the last
        j = fresh_ind(l)
        m = {o.ind: mp[o.ind] for o in loops[:k]}
        m[l.ind] = j
        if not sat(ended(l, loops)):
            continue
        E = AND(subst(ended(l, loops), m), required, cmp_terms('>=', j, ZERO, True), cmp_terms('<', j, mp[l.ind], True))
        if E is not FALSE and sat(E):
            out.append((l, E))
            continue
        # an iteration in an earlier iteration of a loop around it leaves them all
        for q in range(k):
            m = {o.ind: mp[o.ind] for o in loops[:q]}
            o = loops[q]
            jo = fresh_ind(o)
            m[o.ind] = jo
            E = AND(subst(leaves_all(l), m), required, cmp_terms('>=', jo, ZERO, True), cmp_terms('<', jo, mp[o.ind], True))
            if E is not FALSE and sat(E):
                out.append((l, E))
                break
    return out


def key_of(t, n):
    """index components of elem(map, key)"""
    k = t.args[1]
    if k.op == 'vec':
        return list(k.args)
    return [mk('elem', mk('fld', k, 'e_'), num(i)) for i in range(n)]


def elem_of(t, root):
    """the elem(root, key) a location term is within, or None"""
    while t.op in ('fld', 'elem') and isinstance(t.args[0], T):
        if t.op == 'elem' and t.args[0] is root:
            return t
        t = t.args[0]
    return None


def stores(I, root):
    """(event, guard, location term, elem term, case condition of the location) of the stores into the map at root"""
    out = []
    for e in I.events:
        if e.kind != 'store' or e.loc is None:
            continue
        for g, t in cases(e.loc):
            m = elem_of(t, root)
            if m is not None:
                out.append((e, AND(e.g, g), t, m, g))
    return out

