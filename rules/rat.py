"""Exact comparison of rational expressions (quotients of polynomials over opaque atoms, square roots squared away)."""
from core import *


def _one():
    return {(): Fraction(1)}


def pm(a, b):
    """polynomial product, without a size cap"""
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = TM._mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    return {m: c for m, c in d.items() if c != 0}


def pa(a, b, s=1):
    return TM.padd(a, b, s)


class Rat(object):
    """decides equality of real expressions; one instance per comparison family (atoms are matched up to equality)"""

    def __init__(self):
        self.reps = []
        self.memo = {}

    def canon(self, t):
        """representative of an opaque atom"""
        if t.op not in ('fn', 'call', 'ctor'):
            return t
        for r in self.reps:
            if r is t:
                return r
            if r.op == t.op and len(r.args) == len(t.args) and self._sameatom(r, t):
                return r
        self.reps.append(t)
        return t

    def _sameatom(self, r, t):
        k = (r, t)
        if k not in self.memo:
            self.memo[k] = False   # a pair met again while it is being compared counts as different
            if not any(isinstance(x, str) and x != y for x, y in zip(r.args, t.args)):
                self.memo[k] = all(self._same(x, y) for x, y in zip(r.args, t.args))
        return self.memo[k]

    def _same(self, x, y):
        if x is y:
            return True
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y)
        return x == y

    def rat(self, t):
        """(P, Q) with t = P/Q, expanded"""
        P, D = self.frac(t)
        Q = _one()
        for f, p in D.items():
            for _ in range(p):
                Q = pm(Q, topoly(f))
        return P, self.reduce(Q)

    def factor(self, F, p, num_, D):
        """multiply the denominator D by polynomial F to the power p; constants and square root pairs move out"""
        F = self.reduce(F)
        if len(F) == 1:
            (m, c), = F.items()
            num_ = {k: v / c ** p for k, v in num_.items()}
            for a, q in m:
                n = q * p
                if a.op == 'fn' and a.args[0] == 'sqrt' and n >= 2 and polynomial(a.args[1]):
                    num_ = self.factor(topoly(a.args[1]), n // 2, num_, D)
                    n %= 2
                if n:
                    D[a] = D.get(a, 0) + n
                    if a.op == 'fn' and a.args[0] == 'sqrt' and D[a] >= 2 and polynomial(a.args[1]):
                        k = D.pop(a)
                        num_ = self.factor(topoly(a.args[1]), k // 2, num_, D)
                        if k % 2:
                            D[a] = 1
            return num_
        lead = F[min(F, key=TM._mkey)]
        f = TM.frompoly({m: c / lead for m, c in F.items()})
        D[f] = D.get(f, 0) + p
        return {k: v / lead ** p for k, v in num_.items()}

    def frac(self, t):
        """(numerator polynomial, {denominator factor: power}) over the least common denominator"""
        parts = []
        for m, c in topoly(t).items():
            n, D = {(): c}, {}
            for a, p in m:
                if a.op == 'poly':
                    an, ad = self.frac(a)
                else:
                    an, ad = {((self.canon(a), 1),): Fraction(1)}, {}
                k = abs(p)
                if p > 0:
                    for _ in range(k):
                        n = pm(n, an)
                    for f, q in ad.items():
                        D[f] = D.get(f, 0) + q * k
                else:
                    n = self.factor(an, k, n, D)
                    for f, q in ad.items():
                        for _ in range(q * k):
                            n = pm(n, topoly(f))
            parts.append((n, D))
        L = {}
        for n, D in parts:
            for f, q in D.items():
                L[f] = max(L.get(f, 0), q)
        P = {}
        for n, D in parts:
            for f, q in L.items():
                for _ in range(q - D.get(f, 0)):
                    n = pm(n, topoly(f))
            P = pa(P, n)
        return self.reduce(P), L

    def reduce(self, P):
        """sqrt(x)^2 -> x (arguments that are polynomials)"""
        while True:
            out = {}
            again = {}
            for m, c in P.items():
                hit = next((ap for ap in m if ap[0].op == 'fn' and ap[0].args[0] == 'sqrt' and ap[1] >= 2), None)
                if hit is None:
                    out[m] = out.get(m, 0) + c
                    continue
                inner = topoly(hit[0].args[1])
                if any(p < 0 for mm in inner for _, p in mm):
                    out[m] = out.get(m, 0) + c
                    continue
                rest = tuple(x for x in m if x is not hit)
                if hit[1] > 2:
                    rest = TM._mmul(rest, ((hit[0], hit[1] - 2),))
                again = pa(again, pm({rest: c}, inner))
            if not again:
                return {m: c for m, c in out.items() if c != 0}
            P = pa(out, again)

    def zero(self, t):
        P, _ = self.frac(t)
        return not P

    def eq(self, a, b):
        if a is b:
            return True
        if not (arithmetic(a) and arithmetic(b)):
            return False
        if self.zero(t_sub(a, b)):
            return True
        # products of square roots against the square root of a product
        if terms_in(leaf(a), 'fn', 'sqrt') and terms_in(leaf(b), 'fn', 'sqrt'):
            Ra, Rb = self.unroot(a), self.unroot(b)
            if Ra is not None and Rb is not None and self.possame(Ra, Rb):
                return self.zero(t_sub(t_mul(a, a), t_mul(b, b)))
        return False

    def unroot(self, t):
        """t without its square root factors (all positive)"""
        P, Q = self.rat(t)
        out = []
        for R in (P, Q):
            ms = list(R)
            roots = None
            for m in ms:
                r = tuple((a, p) for a, p in m if a.op == 'fn' and a.args[0] == 'sqrt')
                if roots is None:
                    roots = r
                elif roots != r:
                    return None
            out.append({tuple((a, p) for a, p in m if not (a.op == 'fn' and a.args[0] == 'sqrt')): c for m, c in R.items()})
        return out

    def possame(self, A, B):
        """A = (P, Q), B = (P', Q'): ratio of the two is a positive constant or a square"""
        l, r = pm(A[0], B[1]), pm(B[0], A[1])
        if not l or not r:
            return not l and not r
        (m, c) = next(iter(l.items()))
        if m in r:
            k = r[m] / c
            return k > 0 and not pa({x: y * k for x, y in l.items()}, r, -1)
        return False


def polynomial(t):
    return not any(p < 0 for m in topoly(t) for _, p in m)


def arithmetic(t):
    return t.op not in ('true', 'false', 'vec', 'recv', 'undef', 'str')


def same(R, a, b, g=TRUE):
    """guarded values equal under g, exactly as real expressions; returns (ok, counterexample text)"""
    for ga, ta in cases(a):
        G = AND(g, ga)
        if G is FALSE or not sat(G):
            continue
        for gb, tb in cases(b):
            H = AND(G, gb)
            if H is FALSE or not sat(H):
                continue
            if not R.eq(ta, tb):
                # equal where the guard makes them equal
                if arithmetic(ta) and arithmetic(tb):
                    if not sat(AND(H, NOT(cmp_terms('==', ta, tb, False)))):
                        continue
                return False, 'is %s where %s is required, when %s' % (show(ta), show(tb), witness(H))
    return True, ''
