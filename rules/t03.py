"""First-order filters and the running average."""
from core import *
from numlib import *
UNITS = [os.path.join(VERIF, 'harness', 'ctl.cpp')]
NS = 'nn_harness::'
TT = 'trajectory_tracker::'
EXPLANATION = ('Call sequences on a filter (construction, set, one to three inputs) are summarised as exact rational functions of the time constant, the '
               'initial value and the inputs, and compared by cross-multiplication with the answers of the reference one-pole filter; in angle mode the '
               'reference is fed the input moved by whole turns next to the held output.')
ASSUMPTIONS = ['real arithmetic: float rounding is not modelled', 'inputs are finite', 'time constant is not negative']


class Ref(object):
    """reference one-pole filter: pole (2T-1)/(2T+1), DC gain 1 (low) or 0 (high)"""

    def __init__(self, tc, o, low):
        two = t_mul(num(2), tc)
        d = t_add(ONE, two)
        self.c = t_fdiv(num(-1), d)
        self.p = t_fdiv(t_sub(two, ONE), d)
        if low:
            self.dg = t_neg(self.c)
            self.b = t_neg(t_add(self.p, ONE))
        else:
            self.dg = t_neg(t_mul(self.c, two))
            self.b = t_mul(two, t_sub(ONE, self.p))
        self.set(o)

    def set(self, o):
        self.x = t_fdiv(t_mul(t_sub(ONE, self.dg), o), self.c)
        self.y = o

    def inp(self, u):
        self.x = t_add(t_mul(self.b, u), t_mul(self.p, self.x))
        self.y = t_add(t_mul(self.dg, u), t_mul(self.c, self.x))
        return self.y

    def ang(self, u):
        m = num(2 * PI)
        d = t_sub(u, self.y)
        return self.inp(t_add(self.y, t_sub(d, t_mul(m, nearest(t_fdiv(d, m))))))


def check(ctx):
    for part in (sequences, average):
        ctx.part(part)


def sequences(ctx):
    n = 0
    site = {'init': at(ctx.one(TT + 'Filter::Filter')), 'in': at(ctx.one(TT + 'Filter::in')), 'set': at(ctx.one(TT + 'Filter::set')),
            'get': at(ctx.one(TT + 'Filter::get'))}
    for low, pre in ((True, 'lpf'), (False, 'hpf')):
        kind = 'low-pass' if low else 'high-pass'
        for seq, rule, where in (('init', 'filter-reports-initial-value', 'init'), ('one', 'filter-first-answer', 'in'),
                                 ('two', 'filter-second-answer', 'in'), ('three', 'filter-third-answer', 'in'),
                                 ('get', 'filter-reports-last-answer', 'get'), ('set_get', 'filter-reports-set-value', 'set'),
                                 ('set_two', 'filter-answers-after-set', 'set')):
            I, f, r, st = summary(ctx, NS + '%s_%s' % (pre, seq))
            a = args(f)
            F = Ref(a[0], a[1], low)
            y = F.y
            if seq.startswith('set'):
                F.inp(a[2])
                F.set(a[3])
                y = F.y
                rest = a[4:]
            else:
                rest = a[2:]
            for u in rest:
                y = F.inp(u)
            g = AND(st.g, cmp_terms('>=', a[0], ZERO, False))
            agree(ctx, rule, site[where], lib(r), leaf(y), g, kind)
            n += 1
        steady(ctx, low, site['in'])
    for seq, rule in (('init', 'filter-reports-initial-value'), ('one', 'angle-first-answer'), ('two', 'angle-second-answer'),
                      ('set_one', 'angle-answer-after-set')):
        I, f, r, st = summary(ctx, NS + 'ang_' + seq)
        a = args(f)
        F = Ref(a[0], a[1], True)
        y = F.y
        rest = a[2:]
        if seq == 'set_one':
            F.ang(a[2])
            F.set(a[3])
            rest = a[4:]
        for u in rest:
            y = F.ang(u)
        angled(ctx, rule, site['in' if seq != 'init' else 'init'], r, y, st.g, 'angle low-pass')
        n += 1
    I, f, r, st = summary(ctx, NS + 'hang_one')
    a = args(f)
    F = Ref(a[0], a[1], False)
    angled(ctx, 'angle-first-answer', site['in'], r, F.ang(a[2]), st.g, 'angle high-pass')
    ctx.need('filter call sequences', n + 1, 18)
    stationary(ctx, site['in'])


def angled(ctx, rule, where, r, y, g, what):
    """as agree, with the turn taken from the source's own constant"""
    agree(ctx, rule, where, roundpi(lib(r)), roundpi(lib(leaf(y))), g, what)


def roundpi(v):
    """coefficients that are rational multiples of pi, to 12 digits"""
    memo = {}

    def st(t):
        if t in memo:
            return memo[t]
        r = t
        if t.op == 'num':
            r = num(rnd(t.args[0]))
        elif t.op == 'poly':
            r = ZERO
            for m, c in t.args[0]:
                x = num(rnd(c))
                for b, p in m:
                    y = st(b)
                    for _ in range(abs(p)):
                        x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
                r = t_add(r, x)
        elif t.op == 'fn':
            r = leafof(fn_leaf(t.args[0], *[st(x) for x in t.args[1:]]))
            if t in int_terms:
                int_terms.add(r)
        memo[t] = r
        return r
    return lift1(lambda t: leaf(st(t)), v)


def rnd(c):
    return Fraction(c).limit_denominator(10**6) if abs(Fraction(c).limit_denominator(10**6) - c) < Fraction(1, 10**13) else Fraction(round(c * 10**10), 10**10)


def steady(ctx, low, where):
    """a constant input held long enough: fixed point of the one-step map (exact)"""
    I, f, r, st = summary(ctx, NS + ('lpf' if low else 'hpf') + '_two')
    if r.leaf is None:
        ctx.ob('filter-steady-state', False, where, 'the answer depends on a condition')
        return
    tc, o, a, b = args(f)
    _, f1, r1, _ = summary(ctx, NS + ('lpf' if low else 'hpf') + '_one')
    tc1, o1, a1 = args(f1)
    y1 = subst(r1.leaf, {tc1: tc, o1: o, a1: a})
    y2 = subst(r.leaf, {b: a})
    R = Rat()
    two = t_mul(num(2), tc)
    pole = t_fdiv(t_sub(two, ONE), t_add(two, ONE))
    # y2 - target = pole * (y1 - target)
    target = a if low else ZERO
    ok = R.eq(t_sub(y2, target), t_mul(pole, t_sub(y1, target)))
    ctx.ob('filter-steady-state', ok, where, 'a constant input is not approached geometrically with the pole of the time constant: %s' % ('low-pass' if low else 'high-pass'))
    if low:
        ctx.ob('filter-keeps-held-value', R.eq(subst(r1.leaf, {tc1: tc, o1: o, a1: o}), o), where, 'a low-pass filter fed its own value moves')


def stationary(ctx, where):
    """the answer of a filter in an arbitrary state is one expression: no input counts, thresholds or modes besides the angle flag"""
    I, f, r, st = summary(ctx, TT + 'Filter::in')
    flags = [v for v in dvars(r)]
    ok = len(flags) <= 1 and all(TM.atoms[v].op in ('fld', 'deref', 'init') or not terms_in(leaf(TM.atoms[v]), 'par') for v in flags)
    ctx.ob('filter-time-invariant', ok, where, 'the answer depends on %s' % ', '.join(show(TM.atoms[v]) for v in flags))


def average(ctx):
    site = at(ctx.one(TT + 'Average::operator+='))
    for name, n in (('one', 1), ('two', 2), ('three', 3), ('four', 4)):
        I, f, r, st = summary(ctx, NS + 'avg_' + name)
        tot = ZERO
        for a in args(f):
            tot = t_add(tot, a)
        agree(ctx, 'average-of-values', site, lib(r), leaf(t_fdiv(tot, num(n))), st.g, '%d values' % n)
    I, f, r, st = summary(ctx, NS + 'avg_none')
    agree(ctx, 'average-of-nothing', site, lib(r), leaf(ZERO), st.g)
    averstep(ctx)


def averstep(ctx):
    """one more value is taken in the same way whatever was seen before (except after none): no cap, threshold or forgetting"""
    n = 0
    for f in ctx.p.find(TT + 'Average::operator+='):
        I = ctx.interp()
        _, st = I.run(f)
        n += 1
        ctx.ob('average-takes-every-value', not sat(NOT(st.g)), at(f), 'a value may not be taken')
        for fd in ctx.p.records[f.cls]['fields']:
            new = I.freeze(I.read1(mk('fld', mk('this'), fd['n']), st))
            conds = [TM.atoms[v] for v in dvars(new)]
            odd = [c for c in conds if not first(c)]
            ctx.ob('average-takes-every-value', not odd, at(f), 'the update of %s depends on %s' % (fd['n'], ', '.join(show(c) for c in odd)))
    ctx.need('average updates', n)


def first(c):
    """tests one field against zero (or a count against one)"""
    return c.op in ('lt', 'rle', 'le', 'eqn') and c.args[1] in (0, -1, 1) and not terms_in(leaf(c), 'par')
