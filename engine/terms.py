"""Value domain: hash-consed terms, polynomial normal form, and algebraic decision
diagrams (guarded values).  A guard is a diagram over TRUE/FALSE leaves."""
import math
from fractions import Fraction

_tab = {}


class T(object):
    __slots__ = ('op', 'args', 'id', 'h')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        _tab[k] = t
    return t


def num(v):
    return mk('num', Fraction(v))


ZERO = num(0)
ONE = num(1)
TT = mk('true')
FF = mk('false')


def isnum(t):
    return t.op == 'num'


# ---------------------------------------------------------------- polynomials
# poly term: mk('poly', ((mono, coef), ...)) ; mono = ((atom, pow), ...) sorted by id
def topoly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'U':
        return topoly(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, p) for a, p in m)


def frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda kv: _mkey(kv[0]))))


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + s * c
    return {m: c for m, c in d.items() if c != 0}


def _mmul(m, n):
    d = {}
    for a, p in m + n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=lambda ap: ap[0].id))


def pmul(a, b):
    d = {}
    if len(a) * len(b) > 400:
        return {((frompoly(a), 1), (frompoly(b), 1)): Fraction(1)}
    for m, c in a.items():
        for n, e in b.items():
            k = _mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    # sqrt(x)^2 -> x
    out = {}
    again = None
    for m, c in d.items():
        if c == 0:
            continue
        hit = None
        for ap in m:
            if ap[0].op == 'fn' and ap[0].args[0] == 'sqrt' and abs(ap[1]) >= 2:
                hit = ap
                break
        if hit and hit[1] >= 2:
            rest = tuple(x for x in m if x is not hit)
            left = hit[1] % 2
            base = {rest: c}
            inner = topoly(hit[0].args[1])
            for _ in range(hit[1] // 2):
                base = pmul(base, inner)
            if left:
                base = pmul(base, {((hit[0], 1),): Fraction(1)})
            again = padd(again or {}, base)
        else:
            out[m] = out.get(m, 0) + c
    if again:
        out = padd(out, again)
    return {m: c for m, c in out.items() if c != 0}


def t_add(a, b):
    return frompoly(padd(topoly(a), topoly(b)))


def t_sub(a, b):
    return frompoly(padd(topoly(a), topoly(b), -1))


def t_mul(a, b):
    return frompoly(pmul(topoly(a), topoly(b)))


def t_neg(a):
    return frompoly({m: -c for m, c in topoly(a).items()})


def t_fdiv(a, b):
    pb = topoly(b)
    if not pb:
        return mk('fn', 'divzero', a)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -p) for x, p in m): 1 / c}
        return frompoly(pmul(topoly(a), inv))
    # normalise: leading coefficient 1
    lead = max(pb.items(), key=lambda kv: _mkey(kv[0]))[1]
    nb = frompoly({m: c / lead for m, c in pb.items()})
    inv = {((nb, -1),): 1 / lead}
    return frompoly(pmul(topoly(a), inv))


def split_const(t):
    p = topoly(t)
    c = p.pop((), Fraction(0))
    return p, c


# ---------------------------------------------------------------- diagrams
class N(object):
    __slots__ = ('var', 'hi', 'lo', 'leaf', 'id')

    def __repr__(self):
        return show(self)


_nodes = {}


def leaf(t):
    n = _nodes.get(t)
    if n is None:
        n = N()
        n.var = 1 << 60
        n.leaf = t
        n.hi = n.lo = None
        n.id = len(_nodes)
        _nodes[t] = n
    return n


def mknode(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = N()
        n.var = v
        n.hi = hi
        n.lo = lo
        n.leaf = None
        n.id = len(_nodes)
        _nodes[k] = n
    return n


TRUE = leaf(TT)
FALSE = leaf(FF)

_atom_ix = {}
atoms = []


def atom_var(a):
    i = _atom_ix.get(a)
    if i is None:
        i = len(atoms)
        atoms.append(a)
        _atom_ix[a] = i
    return i


def bvar(a):
    return mknode(atom_var(a), TRUE, FALSE)


_ite = {}


def ite(g, a, b):
    if g is TRUE or a is b:
        return a
    if g is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return g
    k = (g.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    if g.leaf is not None:
        raise ValueError('non boolean guard %r' % (g.leaf,))
    v = min(g.var, a.var, b.var)
    gh, gl = (g.hi, g.lo) if g.var == v else (g, g)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    r = mknode(v, ite(gh, ah, bh), ite(gl, al, bl))
    _ite[k] = r
    return r


def AND(*gs):
    r = TRUE
    for g in gs:
        r = ite(r, g, FALSE)
    return r


def OR(*gs):
    r = FALSE
    for g in gs:
        r = ite(r, TRUE, g)
    return r


def NOT(g):
    return ite(g, FALSE, TRUE)


def IMPLIES(a, b):
    return ite(a, b, TRUE)


def IFF(a, b):
    return ite(a, b, NOT(b))


_restr = {}


def restrict(f, c):
    """simplify f assuming c (Coudert-Madre)."""
    if c is FALSE or c is TRUE or f.leaf is not None:
        return f
    k = (f.id, c.id)
    r = _restr.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        r = restrict(f, OR(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is FALSE:
            r = restrict(f.lo, c.lo)
        elif c.lo is FALSE:
            r = restrict(f.hi, c.hi)
        else:
            r = mknode(f.var, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = mknode(f.var, restrict(f.hi, c), restrict(f.lo, c))
    _restr[k] = r
    return r


def lift1(f, a, memo=None):
    """f: term -> N"""
    if a.leaf is not None:
        return f(a.leaf)
    if memo is None:
        memo = {}
    r = memo.get(a.id)
    if r is None:
        r = ite(mknode(a.var, TRUE, FALSE), lift1(f, a.hi, memo), lift1(f, a.lo, memo))
        memo[a.id] = r
    return r


def lift2(f, a, b, memo=None):
    if a.leaf is not None and b.leaf is not None:
        return f(a.leaf, b.leaf)
    if memo is None:
        memo = {}
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        v = min(a.var, b.var)
        ah, al = (a.hi, a.lo) if a.var == v else (a, a)
        bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
        r = ite(mknode(v, TRUE, FALSE), lift2(f, ah, bh, memo), lift2(f, al, bl, memo))
        memo[k] = r
    return r


def leaves(a, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if a.id in seen:
        return acc
    seen.add(a.id)
    if a.leaf is not None:
        acc.append(a.leaf)
    else:
        leaves(a.hi, acc, seen)
        leaves(a.lo, acc, seen)
    return acc


def cases(a):
    """[(guard, leafterm)]"""
    out = []
    for t in leaves(a):
        out.append((lift1(lambda x, t=t: TRUE if x is t else FALSE, a), t))
    return out


def nsize(a, seen=None):
    if seen is None:
        seen = set()
    if a.id in seen:
        return 0
    seen.add(a.id)
    if a.leaf is not None:
        return 1
    return 1 + nsize(a.hi, seen) + nsize(a.lo, seen)


def dvars(a, seen=None, acc=None):
    if acc is None:
        seen, acc = set(), set()
    if a.id in seen:
        return acc
    seen.add(a.id)
    if a.leaf is None:
        acc.add(a.var)
        dvars(a.hi, seen, acc)
        dvars(a.lo, seen, acc)
    return acc


def restrict1(g, v, val):
    """cofactor of g"""
    memo = {}

    def rec(n):
        if n.leaf is not None or n.var > v:
            return n
        if n.id in memo:
            return memo[n.id]
        r = (n.hi if val else n.lo) if n.var == v else mknode(n.var, rec(n.hi), rec(n.lo))
        memo[n.id] = r
        return r
    return rec(g)


# ---------------------------------------------------------------- printing
def show(x, d=0):
    if isinstance(x, N):
        if x.leaf is not None:
            return show(x.leaf, d)
        if d > 6:
            return '..'
        h, l = x.hi, x.lo
        a = show_atom(atoms[x.var], d + 1)
        if h is TRUE and l is FALSE:
            return a
        if h is FALSE and l is TRUE:
            return '!' + a
        if l is FALSE:
            return '(%s & %s)' % (a, show(h, d))
        if h is FALSE:
            return '(!%s & %s)' % (a, show(l, d))
        if h is TRUE:
            return '(%s | %s)' % (a, show(l, d))
        if l is TRUE:
            return '(!%s | %s)' % (a, show(h, d))
        return '(%s ? %s : %s)' % (a, show(h, d + 1), show(l, d + 1))
    if isinstance(x, Fraction):
        return str(x) if x.denominator == 1 else '%.6g' % float(x)
    if isinstance(x, tuple):
        return '(' + ','.join(show(i, d + 1) for i in x) + ')'
    if not isinstance(x, T):
        return str(x)
    if d > 14:
        return '...'
    if x.op == 'num':
        return show(x.args[0])
    if x.op == 'poly':
        parts = []
        for m, c in x.args[0]:
            ms = '*'.join(show(a, d + 1) + ('' if p == 1 else '^%d' % p) for a, p in m)
            parts.append(show(c) + ('*' + ms if ms else '') if c != 1 or not ms else ms)
        return '(' + ' + '.join(parts) + ')'
    if x.op == 'fld':
        return show(x.args[0], d + 1) + '.' + str(x.args[1])
    if x.op == 'elem':
        return '%s[%s]' % (show(x.args[0], d + 1), show(x.args[1], d + 1))
    if x.op == 'this':
        return 'this'
    if x.op in ('var', 'par', 'glob'):
        return str(x.args[-1])
    if x.op == 'str':
        return repr(x.args[0])
    if x.op in ('le', 'lt', 'rle'):
        return show_atom(x, d)
    if x.op == 'addr':
        return '&' + show(x.args[0], d + 1)
    if x.op == 'deref':
        return '*' + show(x.args[0], d + 1)
    return x.op + '(' + ', '.join(show(a, d + 1) for a in x.args) + ')'


def show_atom(a, d=0):
    if a.op in ('le', 'rle'):
        return '{%s<=%s}' % (show(a.args[0], d), show(a.args[1]))
    if a.op == 'lt':
        return '{%s<%s}' % (show(a.args[0], d), show(a.args[1]))
    if a.op == 'eqn':
        return '{%s==%s}' % (show(a.args[0], d), show(a.args[1]))
    return '{' + show(a, d) + '}'


# ---------------------------------------------------------------- comparisons
def _lead(p):
    return max(p.items(), key=lambda kv: _mkey(kv[0]))


def _gcdfrac(cs):
    from math import gcd
    den = 1
    for c in cs:
        den = den * c.denominator // gcd(den, c.denominator)
    n = 0
    for c in cs:
        n = gcd(n, int(c * den))
    return Fraction(n, den)


def le_int(d):
    """d <= 0 over integers, d term"""
    p, c = split_const(d)
    if not p:
        return TRUE if c <= 0 else FALSE
    g = _gcdfrac(p.values())
    if _lead(p)[1] > 0:
        p = {m: x / g for m, x in p.items()}
        k = (-c / g)
        k = Fraction(k.numerator // k.denominator)
        L = frompoly(p)
        if k < 0 and nonneg_hook[0](L):
            return FALSE
        return bvar(mk('le', L, k))
    p = {m: -x / g for m, x in p.items()}
    k = c / g           # L >= k  <=> not L <= ceil(k)-1
    k = Fraction(-((-k.numerator) // k.denominator)) - 1
    L = frompoly(p)
    if k < 0 and nonneg_hook[0](L):
        return TRUE
    return NOT(bvar(mk('le', L, k)))


nonneg_hook = [lambda t: False]


def eq_num_terms(d, isint):
    p, c = split_const(d)
    if not p:
        return TRUE if c == 0 else FALSE
    if isint:
        g = _gcdfrac(p.values())
    else:
        g = abs(_lead(p)[1])
    if _lead(p)[1] < 0:
        g = -g
    p = {m: x / g for m, x in p.items()}
    k = -c / g
    L = frompoly(p)
    if isint and k.denominator != 1:
        return FALSE
    if k < 0 and nonneg_hook[0](L):
        return FALSE
    if isint and k == 0 and nonneg_hook[0](L):
        return bvar(mk('le', L, k))
    return bvar(mk('eqn', L, k, isint))


def lt_real(d, strict=True):
    p, c = split_const(d)
    if not p:
        return TRUE if (c < 0 if strict else c <= 0) else FALSE
    l = _lead(p)[1]
    if l > 0:
        p = {m: x / l for m, x in p.items()}
        return bvar(mk('lt' if strict else 'rle', frompoly(p), -c / l))
    p = {m: x / l for m, x in p.items()}
    k = -c / l
    # d = l*(P - k), l<0 ; d<0 <=> P>k <=> not P<=k
    return NOT(bvar(mk('rle' if strict else 'lt', frompoly(p), k)))


INF_OPS = ('inf', 'ninf')
NAN = mk('nan')


def cmp_terms(op, a, b, isint):
    """a,b leaf terms -> N boolean"""
    if a is NAN or b is NAN:
        return TRUE if op == '!=' else FALSE
    if a.op == 'inf' or b.op == 'inf' or a.op == 'ninf' or b.op == 'ninf':
        ra = {'inf': 1, 'ninf': -1}.get(a.op, 0)
        rb = {'inf': 1, 'ninf': -1}.get(b.op, 0)
        if a is b or (ra != rb and True):
            r = {'<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb, '==': ra == rb, '!=': ra != rb}[op]
            return TRUE if r else FALSE
    d = t_sub(a, b)
    if op == '<':
        return le_int(t_add(d, ONE)) if isint else lt_real(d)
    if op == '<=':
        return le_int(d) if isint else lt_real(d, False)
    if op == '>':
        return cmp_terms('<', b, a, isint)
    if op == '>=':
        return cmp_terms('<=', b, a, isint)
    if op == '==':
        return eq_num_terms(d, isint)
    if op == '!=':
        return NOT(cmp_terms('==', a, b, isint))
    raise ValueError(op)


# ---------------------------------------------------------------- theory
# facts attached to atom terms: list of (poly-term f, strict) meaning f >= 0
facts = {}


def _atoms_of(p, acc):
    for m in p:
        for a, _ in m:
            acc.add(a)

_monoid = {}
_monolist = []


def mono_id(m):
    i = _monoid.get(m)
    if i is None:
        i = len(_monolist)
        _monoid[m] = i
        _monolist.append(m)
    return i


def _intcon(p, k, strict):
    """sum(c*m) + k (<|<=) 0 with Fractions -> (dict id->int, int, strict)"""
    den = k.denominator
    k0 = Fraction(0)
    for m, c in p.items():
        d = c.denominator
        den = den * d // math.gcd(den, d)
    out = {}
    kk = int(k * den)
    for m, c in p.items():
        if m == ():
            kk += int(c * den)
        elif c != 0:
            out[mono_id(m)] = int(c * den)
    return out, kk, strict


_atomcons = {}


def atom_cons(v, val):
    r = _atomcons.get((v, val))
    if r is not None:
        return r
    a = atoms[v]
    r = []
    if a.op in ('le', 'lt', 'rle', 'eqn'):
        p = topoly(a.args[0])
        k = a.args[1]
        n = {m: -c for m, c in p.items()}
        if a.op == 'le':
            r = [_intcon(p, -k, False)] if val else [_intcon(n, k + 1, False)]
        elif a.op in ('lt', 'rle'):
            strict = (a.op == 'lt') == val
            r = [_intcon(p, -k, strict)] if val else [_intcon(n, k, strict)]
        elif val:
            r = [_intcon(p, -k, False), _intcon(n, k, False)]
    _atomcons[(v, val)] = r
    return r


def fm_sat(cons, limit=4000):
    """Fourier-Motzkin closure; True if (rationally) satisfiable or undecided"""
    work = []
    for p, k, s in cons:
        if not p:
            if k > 0 or (s and k >= 0):
                return False
            continue
        work.append((p, k, s))
    steps = 0
    gcd = math.gcd
    while True:
        vs = {}
        for p, k, s in work:
            for m, c in p.items():
                e = vs.get(m)
                if e is None:
                    e = vs[m] = [0, 0]
                e[0 if c > 0 else 1] += 1
        if not vs:
            return True
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = []
        neg = []
        new = {}
        for c in work:
            x = c[0].get(m, 0)
            if x > 0:
                pos.append(c)
            elif x < 0:
                neg.append(c)
            else:
                _put(new, c[0], c[1], c[2])
        for p, k, s in pos:
            b = p[m]
            for q, l, t in neg:
                steps += 1
                if steps > limit:
                    return True
                a = -q[m]
                g = gcd(a, b)
                aa = a // g
                bb = b // g
                r = {}
                for x, c in p.items():
                    r[x] = aa * c
                for x, c in q.items():
                    y = r.get(x, 0) + bb * c
                    if y:
                        r[x] = y
                    else:
                        r.pop(x, None)
                kk = aa * k + bb * l
                ss = s or t
                if not r:
                    if kk > 0 or (ss and kk >= 0):
                        return False
                    continue
                _put(new, r, kk, ss)
        work = [(dict(key), Fraction(k).numerator if False else k, s) for key, (k, s) in new.items()]
        # back to integers
        work = [_scale(p, k, s) for p, k, s in work]


def _scale(p, k, s):
    if isinstance(k, Fraction):
        d = k.denominator
        if d != 1:
            return {x: c * d for x, c in p.items()}, k.numerator, s
        return p, k.numerator, s
    return p, k, s


def _put(new, r, kk, ss):
    g = 0
    for c in r.values():
        g = math.gcd(g, c)
    if g > 1:
        r = {x: c // g for x, c in r.items()}
        kk = Fraction(kk, g)
    key = tuple(sorted(r.items()))
    o = new.get(key)
    if o is None or (kk, ss) > o:
        new[key] = (kk, ss)


hooks_theory = []
_auto_facts = {}


def auto_facts(a):
    """facts intrinsic to an atom term"""
    r = _auto_facts.get(a)
    if r is not None:
        return r
    r = []
    if a.op == 'fld' and a.args[1] == '#size':
        r.append(a)
    elif a.op == 'fn' and a.args[0] in ('sqrt', 'fabs', 'exp'):
        r.append(a)
    elif a.op == 'ind':
        r.append(a)
    elif a.op == 'n8':
        r.append(t_add(a, num(128)))
        r.append(t_sub(num(127), a))
    elif a.op == 'nu':
        r.append(a)
        r.append(t_sub(num((1 << a.args[0]) - 1), a))
    elif a.op == 'imod' and isinstance(a.args[1], T) and a.args[1].op == 'num':
        n = abs(a.args[1].args[0])
        r.append(t_sub(num(n - 1), a))
        r.append(t_add(a, num(n - 1)))
    elif a.op == 'fn' and a.args[0] in ('sin', 'cos'):
        r.append(t_add(a, ONE))
        r.append(t_sub(ONE, a))
    elif a.op == 'fn' and a.args[0] == 'and' :
        pass
    _auto_facts[a] = r
    return r


unsigned_terms = set()


_closure = {}        # var -> (frozenset of monomial ids, frozenset of atoms)
_factcons = {}
_compsat = {}


def add_fact(t, ge):
    """the term ge (>= 0) holds whenever atom t appears"""
    l = facts.setdefault(t, [])
    if ge not in l:
        l.append(ge)
        if t in _used_atoms:
            _closure.clear()
            _factcons.clear()
            _compsat.clear()
            _used_atoms.clear()


_used_atoms = set()


def _close_atoms(ats):
    """all facts reachable from the atoms: (constraints, monomials, atoms)"""
    key = frozenset(ats)
    r = _factcons.get(key)
    if r is not None:
        return r
    done = set()
    todo = list(ats)
    cons = []
    monos = set()
    while todo:
        a = todo.pop()
        if a in done or len(done) > 60:
            continue
        done.add(a)
        _used_atoms.add(a)
        fs = list(facts.get(a, ())) + auto_facts(a)
        if a in unsigned_terms:
            fs.append(a)
        for f in fs:
            p = topoly(f)
            c = _intcon({m: -x for m, x in p.items()}, Fraction(0), False)
            cons.append(c)
            monos.update(c[0])
            s2 = set()
            _atoms_of(p, s2)
            todo.extend(s2 - done)
    r = (cons, monos, done)
    _factcons[key] = r
    return r


def var_closure(v):
    r = _closure.get(v)
    if r is not None:
        return r
    a = atoms[v]
    if a.op in ('le', 'lt', 'rle', 'eqn'):
        p = topoly(a.args[0])
        ats = set()
        _atoms_of(p, ats)
        cons, monos, done = _close_atoms(ats)
        ms = set(mono_id(m) for m in p if m)
        r = (frozenset(ms | monos), frozenset(ats))
    else:
        r = None
    _closure[v] = r if r is not None else False
    return _closure[v]


def cube_sat(cube):
    eqs = None
    comps = []      # [monoset, {(var,val)}]
    for v, val in cube.items():
        a = atoms[v]
        if a.op == 'eq' and val:
            if eqs is None:
                eqs = {}
            x, y = a.args
            for u, w in ((x, y), (y, x)):
                if w.op in ('str', 'null', 'enumc', 'addr', 'new'):
                    if u in eqs and eqs[u] is not w:
                        return False
                    eqs[u] = w
            continue
        c = var_closure(v)
        if not c:
            continue
        ms = c[0]
        lits = [(v, val)]
        rest = []
        for k in comps:
            if k[0].isdisjoint(ms):
                rest.append(k)
            else:
                ms = ms | k[0]
                lits.extend(k[1])
        rest.append([ms, lits])
        comps = rest
    for ms, lits in comps:
        key = frozenset(lits)
        r = _compsat.get(key)
        if r is None:
            r = _comp_sat(lits)
            _compsat[key] = r
        if not r:
            return False
    return True


def _comp_sat(lits):
    cons = []
    ats = set()
    for v, val in lits:
        cons.extend(atom_cons(v, val))
        ats |= var_closure(v)[1]
    fc, monos, done = _close_atoms(ats)
    cons = cons + fc
    ms = set()
    for p, k, s in cons:
        ms.update(p)
    for i in ms:
        m = _monolist[i]
        if m and all(p % 2 == 0 for _, p in m):
            cons.append(({i: -1}, 0, False))
    if not fm_sat(cons):
        return False
    for v, val in lits:
        a = atoms[v]
        if a.op == 'eqn' and not val:
            i = a.args[2]
            p = topoly(a.args[0])
            k = a.args[1]
            n = {m: -c for m, c in p.items()}
            lo = cons + [_intcon(p, -k + (1 if i else 0), not i)]
            if fm_sat(lo):
                continue
            if not fm_sat(cons + [_intcon(n, k + (1 if i else 0), not i)]):
                return False
    return True


_sat = {}


def sat(g, cube=None, budget=None):
    """is the guard satisfiable modulo the linear theory"""
    if g is FALSE:
        return False
    key = g.id
    if cube is None and key in _sat :
        return _sat[key]
    if budget is None:
        budget = [400]
    r = _sat_rec(g, dict(cube) if cube else {}, budget)
    if budget[0] < 0:
        r = _sat_units(g, dict(cube) if cube else {})
    if cube is None:
        _sat[key] = r
    return r


def _sat_rec(g, cube, budget):
    if g is FALSE:
        return False
    if g is TRUE:
        return cube_sat(cube)
    budget[0] -= 1
    if budget[0] < 0:
        return True
    arith = atoms[g.var].op in ('le', 'lt', 'rle', 'eq', 'eqn')
    for val, sub in ((True, g.hi), (False, g.lo)):
        if sub is FALSE:
            continue
        cube[g.var] = val
        if (not arith) or sub is TRUE or cube_sat(cube):
            if _sat_rec(sub, cube, budget):
                del cube[g.var]
                return True
        del cube[g.var]
    return False


def _sat_units(g, cube):
    """literals forced by the guard or by the theory first, then search"""
    while True:
        if g is FALSE:
            return False
        n = len(cube)
        for v in sorted(dvars(g)):
            a = restrict1(g, v, True)
            b = restrict1(g, v, False)
            if a is FALSE or b is FALSE:
                if v not in cube:
                    cube[v] = b is FALSE
                g = a if b is FALSE else b
                if g is FALSE:
                    return False
        if not cube_sat(cube):
            return False
        for v in sorted(dvars(g)):
            cube[v] = True
            t = cube_sat(cube)
            cube[v] = False
            f = cube_sat(cube)
            del cube[v]
            if not t and not f:
                return False
            if not t or not f:
                cube[v] = t
                g = restrict1(g, v, t)
                if g is FALSE:
                    return False
        if len(cube) == n:
            break
    # split on one variable at a time, propagating again, before plain search
    return _sat_rec(g, cube, [20000])


def witness(g):
    """a satisfying cube, as readable text"""
    res = []

    def rec(g, cube):
        if g is FALSE:
            return False
        if g is TRUE:
            if cube_sat(cube):
                res.append(dict(cube))
                return True
            return False
        for val, sub in ((True, g.hi), (False, g.lo)):
            if sub is FALSE:
                continue
            cube[g.var] = val
            if cube_sat(cube) and rec(sub, cube):
                return True
            del cube[g.var]
        return False
    rec(g, {})
    if not res:
        return '(none)'
    return ' & '.join(('' if v else '!') + show_atom(atoms[k]) for k, v in sorted(res[0].items()))


def entails(g, p):
    return not sat(AND(g, NOT(p)))


def equal_values(a, b, g=TRUE, isint=False):
    """guarded values equal under g, modulo theory"""
    if a is b:
        return True

    def eqt(x, y):
        if x is y:
            return TRUE
        if x.op in ('num', 'poly') or y.op in ('num', 'poly'):
            d = t_sub(x, y)
            if d.op == 'num':
                return TRUE if d.args[0] == 0 else FALSE
            return cmp_terms('==', x, y, isint)
        return FALSE
    diff = AND(g, NOT(lift2(eqt, a, b)))
    return not sat(diff)
