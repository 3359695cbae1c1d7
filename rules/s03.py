"""Safety limiter: the predicted ratio (simulated motion of the footprint through the obstacle points)."""
from rosmodel import *
import s01
from rat import arithmetic, Rat
from terms import restrict1, witness
from s01 import UNITS, CLS
from pclmodel import *
from eigen3 import rewrite
EXPLANATION = ('The prediction is summarised as a fixpoint over its loops; the simulated motion is compared as a planar rigid transform, the travelled and the remaining '
               'distances by induction over the steps, the ratio by exact rational functions, and the points by value flow from the accumulated cloud.')
ASSUMPTIONS = ['callbacks run one at a time', 'real arithmetic', 'positive period, step, velocities and accelerations of the configuration', 'the radius search returns all points within its radius']
POLY = 'safety_limiter::SafetyLimiterNode::polygon'


def flat(v):
    """scalar components of an aggregate value, in order"""
    if isinstance(v, (N, T)):
        return [v]
    out = []
    for k in sorted(v.kids):
        out += flat(v.kids[k])
    for i, g, x in sorted(v.arr, key=lambda a: show(a[0])):
        out += flat(x)
    return out


def check(ctx):
    N_ = RosNode(ctx, CLS, ['spin'])
    Q = Pred(ctx, N_)
    ctx.part(simulation, N_, Q)
    ctx.part(motion, N_, Q)
    ctx.part(ratio, N_, Q)
    ctx.part(points, N_, Q)
    ctx.part(footprint, N_, Q)
    ctx.part(horizon, N_, Q)
    ctx.part(status, N_, Q)
    ctx.part(accumulation, N_, Q)


def inside_hook(I, st, e, d, O, obj):
    if O is None:
        O = I.lval(obj, st)
    a = I.rv(e['a'][0], st)
    t = mk('inside', I.fresh())
    I.emit('call', 'inside', st, e['l'], args=(a,), loc=O, val=leaf(t), decl=d)
    return bvar(t)


PT = mk('par', 'point')


def removal(I, st, e, d, O, obj):
    """points taken out: the predicate is summarised for an arbitrary point"""
    vs = [I.freeze(I.rv(a, st)) for a in e['a']]
    lam = vs[2].leaf
    if lam is None or lam.op != 'lambda':
        raise AnchorMissing('predicate of the removal')
    s2 = State(st.g, dict(st.mem))
    v = I.call_lambda(lam.args[0], None, s2, e['l'], argvals=[('L', leaf(PT))])
    z = I.freeze(I.typed(I.read1(mk('fld', PT, 'z'), s2), FLT))
    xy = [I.freeze(I.typed(I.read1(mk('fld', PT, c), s2), FLT)) for c in 'xy']
    I.emit('call', 'removal', st, e['l'], args=(tobool(I.freeze(v)), z) + tuple(xy), decl=d)
    return leaf(mk('call', 'std::remove_if', vs[0].leaf if vs[0].leaf is not None else vs[0], mk('pred', I.fresh())))


class Pred(object):
    def __init__(self, ctx, N_):
        self.f = s01.predictors(ctx)[0]
        self.hooks = pcl_hooks()
        self.hooks.update({POLY + '::inside': inside_hook, 'std::remove_if': removal})
        Ic, rc, sc = N_.run(param_cb(N_))
        self.cfg = {}
        for l in written(Ic, sc):
            v = Ic.freeze(Ic.read1(l, sc))
            t = atoms[v.var] if v.leaf is None and v.hi is TRUE and v.lo is FALSE else tnum(v).leaf
            if t is not None and t.op == 'fld' and rootloc(t).op == 'par' and t.args[0] is rootloc(t):
                self.cfg[t.args[1]] = l
        self.param = (Ic, sc)
        for n in ('freq', 'dt', 'lin_vel', 'lin_acc', 'ang_vel', 'ang_acc', 'd_margin', 'd_escape', 'yaw_margin', 'yaw_escape', 'allow_empty_cloud', 'z_range_min', 'z_range_max'):
            if n not in self.cfg:
                raise AnchorMissing('setting %s' % n)
        c = self.cfg
        It, rt, stt = N_.run(N_.callback('cmd_vel_in'), hooks={self.f.qn: s01.predicted})
        m = par_msg(N_.callback('cmd_vel_in'))
        tw = [base_of(l) for l in written(It, stt) for t in leaves(It.freeze(It.read1(l, stt))) if t is m or (t.op == 'fld' and rootloc(t) is rootloc(m) and base_of(l) is not None)]
        tw = list(dict.fromkeys(tw))
        if len(tw) != 1:
            raise AnchorMissing('command kept: %d' % len(tw))
        self.tw = tw[0]
        self.I, self.r, self.st = N_.run(self.f, hooks=self.hooks, args=[self.tw])
        self.r = self.I.freeze(self.r)
        F = lambda *p: reduce_fld(self.tw, p)
        self.vx, self.vy, self.w = F('linear', 'x'), F('linear', 'y'), F('angular', 'z')
        self.dt = c['dt']
        self.lv = leafof(fn_leaf('sqrt', t_add(t_mul(self.vx, self.vx), t_mul(self.vy, self.vy))))
        ins = [e for e in self.I.events if e.name == 'inside']
        if len(ins) != 1 or not ins[0].loops:
            raise AnchorMissing('footprint test: %d' % len(ins))
        self.ins = ins[0]
        self.L = self.ins.loops[0]
        self.k = self.L.ind
        self.site = at(self.ins)
        # time of the step
        pos = lambda t: cmp_terms('>', t, ZERO, False)
        self.pre = AND(*[pos(c[n]) for n in ('freq', 'dt', 'lin_vel', 'ang_vel', 'lin_acc', 'ang_acc')])
        kz = cmp_terms('==', self.k, ZERO, True)
        kt = cmp_terms('==', t_mul(self.dt, self.k), ZERO, False)
        self.first = kz
        self.pre = AND(self.pre, IFF(kz, kt), cmp_terms('>=', self.k, ZERO, True))
        self.hit = AND(self.ins.g, bvar(self.ins.val.leaf))
        L = self.L
        self.stop = OR(*[x.g for x in L.exits[1:] if x is not None]) if len(L.exits) > 1 else FALSE


def reduce_fld(l, p):
    for x in p:
        l = mk('fld', l, x)
    return l


def base_of(l):
    while l.op == 'fld' and l.args[0].op != 'this':
        l = l.args[0]
    return l if l.op == 'fld' else None


def param_cb(N_):
    for e in N_.I.events:
        if e.kind == 'call' and e.name.endswith('Server::setCallback'):
            us = [u for a in e.args for u in funcs_in(a)]
            if us:
                return N_.func(us[0])
    raise AnchorMissing('parameter callback')


def own(Q, v):
    """the argument of the prediction is the kept command"""
    p = par(Q.f, 0)
    mp = {}
    for x in terms_in(v, 'fld'):
        if rootloc(x) is p:
            path = []
            y = x
            while y is not p:
                path.insert(0, y.args[1])
                y = y.args[0]
            mp[x] = reduce_fld(Q.tw, path)
    return subst(v, mp) if mp else v


def nxt(Q, p):
    return own(Q, Q.I.freeze(Q.I.read1(p, Q.L.next)))


def roles(ctx, Q):
    """loop-carried quantities by how they change in a step without contact"""
    if hasattr(Q, 'role'):
        return Q.role
    L, I = Q.L, Q.I
    free = AND(L.next.g, NOT(Q.ins.g), NOT(Q.first), Q.pre)
    want = {'d': [t_mul(Q.lv, Q.dt)], 'y': [t_mul(Q.w, Q.dt)], 'de': [t_neg(t_mul(Q.lv, Q.dt))], 'ye': None}
    aw = absval(Q.w)
    role = {}
    neg = cmp_terms('<', Q.w, ZERO, False)
    for p in L.phis:
        v = nxt(Q, p)
        if v.leaf is not None and v.leaf.op in ('true', 'false'):
            continue
        ph = mk('phi', L.id, p) if False else I.freeze(I.read1(p, L.head)).leaf
        if ph is None:
            continue
        ds = [(t_sub(t, ph), g) for g, t in cases(v) if arithmetic(t) and sat(AND(g, free))]
        if not ds or any(ph in subterms(d) for d, g in ds):
            continue
        def is_(w):
            return all(not sat(AND(free, g, NOT(tobool(lift1(lambda x: cmp_terms('==', d, x, False), w))))) for d, g in ds)
        for n, w in (('d', leaf(t_mul(Q.lv, Q.dt))), ('de', leaf(t_neg(t_mul(Q.lv, Q.dt)))), ('y', leaf(t_mul(Q.w, Q.dt))),
                     ('ya', lift1c(lambda x: t_mul(x, Q.dt), aw)), ('ye', lift1c(lambda x: t_neg(t_mul(x, Q.dt)), aw))):
            if is_(w):
                role.setdefault(n, []).append((p, ph))
    if 'y' not in role and 'ya' in role:
        role['y'] = role['ya']
    Q.role = role
    return role


def simulation(ctx, N_, Q):
    L, I = Q.L, Q.I
    role = roles(ctx, Q)
    for n, what in (('d', 'travelled distance'), ('y', 'turned angle'), ('de', 'distance left to escape'), ('ye', 'angle left to escape')):
        ctx.ob('step-adds-motion', len(role.get(n, ())) == 1, Q.site, 'no quantity grows like the %s (%d)' % (what, len(role.get(n, ()))))
    if any(len(role.get(n, ())) != 1 for n in ('d', 'y', 'de', 'ye')):
        return
    site = Q.site
    c = Q.cfg
    P = {n: role[n][0] for n in ('d', 'y', 'de', 'ye')}
    aw = absval(Q.w)
    step = {'d': leaf(t_mul(Q.lv, Q.dt)), 'y': leaf(t_mul(Q.w, Q.dt)), 'de': leaf(t_neg(t_mul(Q.lv, Q.dt))), 'ye': lift1c(lambda x: t_neg(t_mul(x, Q.dt)), aw)}
    if 'ya' in role and role['ya'][0][0] is P['y'][0]:
        step['y'] = lift1c(lambda x: t_mul(x, Q.dt), aw)
    one = {}
    for n in P:
        one[n] = ite(Q.first, leaf(P[n][1]), lift2c(t_add, leaf(P[n][1]), step[n]))
    two = {'d': lift2c(t_sub, one['d'], step['d']), 'y': lift2c(t_sub, one['y'], step['y']),
           'de': ite(Q.first, leaf(c['d_escape']), one['de']), 'ye': ite(Q.first, leaf(c['yaw_escape']), one['ye'])}
    over = OR(*[tobool(lift1(lambda t: cmp_terms('<=', t, ZERO, False), two[n])) for n in ('de', 'ye')])
    Q.ref = (P, one, two, over)
    names = {'d': 'travelled distance', 'y': 'turned angle', 'de': 'distance left to escape', 'ye': 'angle left to escape'}
    for n in P:
        p, ph = P[n]
        agree(ctx, 'starts-at-rest', site, own(Q, I.freeze(I.read1(p, L.entry))), leaf(ZERO), TRUE, names[n])
        agree(ctx, 'step-adds-motion', site, nxt(Q, p), one[n], AND(L.next.g, NOT(Q.ins.g), Q.pre), names[n])
        agree(ctx, 'contact-takes-back-step', site, nxt(Q, p), two[n], AND(L.next.g, Q.hit, Q.pre), names[n])
    # the simulation goes on unless a contact cannot be left
    body = AND(L.body_g, Q.pre)
    ctx.entail('stops-at-contact', AND(body, Q.hit, over), Q.stop, site, 'the simulation goes on in a contact that cannot be left')
    ctx.entail('stops-at-contact', AND(body, Q.stop), AND(Q.hit, over), site, 'the simulation ends without a contact that cannot be left')
    # in contact now
    fl = [p for p in L.phis if isb(nxt(Q, p)) and sat(AND(Q.hit, Q.first, Q.pre, tobool(nxt(Q, p)), L.next.g)) and not sat(AND(Q.hit, Q.first, Q.pre, NOT(tobool(nxt(Q, p))), L.next.g))]
    ctx.ob('contact-now-remembered', len(fl) == 1, site, 'a contact at the start is not remembered')
    if len(fl) != 1:
        return
    now = fl[0]
    Q.now = now
    h = tobool(I.freeze(I.read1(now, L.head)))
    Q.nowg = h
    ctx.ob('contact-now-remembered', tobool(I.freeze(I.read1(now, L.entry))) is FALSE, site, 'contact is taken for granted at the start')
    for g, w, s in ((AND(L.next.g, Q.hit), OR(h, Q.first), 'with contact'), (AND(L.next.g, NOT(Q.ins.g)), h, 'without contact')):
        v = tobool(nxt(Q, now))
        ctx.entail('contact-now-remembered', AND(g, Q.pre, w), v, site, 'contact now is forgotten ' + s)
        ctx.entail('contact-now-remembered', AND(g, Q.pre, v), w, site, 'contact now is taken for granted ' + s)
    # distances when stopped
    for x in L.exits[1:]:
        if x is None:
            continue
        for n in ('d', 'y'):
            want = ite(OR(h, Q.first), leaf(ZERO), two[n])
            agree(ctx, 'distance-to-contact', site, own(Q, I.freeze(I.read1(P[n][0], x))), want, AND(x.g, Q.pre), names[n])
    # every point of a step is tested
    for l in Q.ins.loops[1:]:
        agree(ctx, 'all-points-tested', site, leaf(l.ind), leaf(l.ind), TRUE)
        other = [x for x in l.exits[1:] if x is not None]
        ctx.entail('all-points-tested', OR(*[x.g for x in other]) if other else FALSE, Q.hit, site, 'the points of a step are left early')
        ctx.entail('all-points-tested', AND(l.body_g, NOT(bvar(Q.ins.val.leaf))), l.next.g, site, 'the points of a step are left early')
        ctx.entail('all-points-tested', l.body_g, Q.ins.g, site, 'a point is not tested')


def isb(v):
    return all(t.op in ('true', 'false') for t in leaves(v))


# ---- planar motions

class Rigid(object):
    """product of a symbol (or nothing) and planar rigid motions on either side: (pre, sym, post)"""


def trig(w, th):
    """cosine and sine of th relative to the angle w"""
    if th is ZERO:
        return ONE, ZERO
    c, s = mk('cosw'), mk('sinw')
    if th is w:
        return c, s
    if th is t_neg(w):
        return c, t_neg(s)
    return mk('cosx', th), mk('sinx', th)


def mat(c, s, x, y):
    return (c, s, x, y)


ID = (ONE, ZERO, ZERO, ZERO)


def mmul(a, b):
    return (t_sub(t_mul(a[0], b[0]), t_mul(a[1], b[1])), t_add(t_mul(a[1], b[0]), t_mul(a[0], b[1])),
            t_add(a[2], t_sub(t_mul(a[0], b[2]), t_mul(a[1], b[3]))), t_add(a[3], t_add(t_mul(a[1], b[2]), t_mul(a[0], b[3]))))


def minv(a):
    r = (a[0], t_neg(a[1]), ZERO, ZERO)
    t = mmul(r, (ONE, ZERO, t_neg(a[2]), t_neg(a[3])))
    return (a[0], t_neg(a[1]), t[2], t[3])


def red(t):
    """sin^2 = 1 - cos^2"""
    c, s = mk('cosw'), mk('sinw')
    out = ZERO
    for m, k in topoly(t).items():
        x = num(k)
        for b, p in m:
            if b is s and p >= 2:
                for _ in range(p // 2):
                    x = t_mul(x, t_sub(ONE, t_mul(c, c)))
                p = p % 2
            for _ in range(abs(p)):
                x = t_mul(x, b) if p > 0 else t_fdiv(x, b)
        out = t_add(out, x)
    return out


def msame(a, b):
    return all(red(t_sub(x, y)) is ZERO for x, y in zip(a, b))


def one_case(v, g):
    if isinstance(v, T):
        return v
    ts = list(dict.fromkeys(t for h, t in cases(v) if sat(AND(g, h))))
    return ts[0] if len(ts) == 1 else None


def planar(t, w, g, inv=False):
    """[factor]: matrices and symbols of an Eigen transform term; None if it is something else"""
    if isinstance(t, N):
        t = one_case(t, g)
    if t is None:
        return None
    U = lambda x: one_case(x, g) if isinstance(x, N) else x
    nm = str(t.args[0]) if t.args else ''
    if t.op == 'call' and nm.endswith('::operator*') and len(t.args) == 3:
        a, b = planar(t.args[1], w, g), planar(t.args[2], w, g)
        return None if a is None or b is None else a + b
    if t.op == 'call' and nm.endswith('::inverse'):
        a = planar(t.args[1], w, g)
        return None if a is None or any(x[0] != 'm' for x in a) else [('m', minv(x[1])) for x in reversed(a)]
    if t.op == 'call' and nm.endswith('::Identity') or t.op == 'mut' and nm.endswith('setIdentity'):
        return []
    if t.op == 'mut' and nm.rsplit('::', 1)[-1] in ('rotate', 'translate', 'prerotate', 'pretranslate'):
        a, b = planar(t.args[1], w, g), elem_motion(U(t.args[2]), w, U)
        if a is None or b is None:
            return None
        return b + a if 'pre' in nm.rsplit('::', 1)[-1] else a + b
    if t.op == 'ctor' and nm.endswith('Transform') and len(t.args) == 2:
        return planar(t.args[1], w, g)
    r = elem_motion(t, w, U)
    if r is not None:
        return r
    if t.op == 'phi':
        return [('s', t)]
    return None


def elem_motion(t, w, U):
    if t is None or t.op != 'ctor':
        return None
    nm = str(t.args[0])
    if nm.endswith('AngleAxis') and len(t.args) == 3 and 'UnitZ' in show(t.args[2]):
        c, s = trig(w, U(t.args[1]))
        return [('m', (c, s, ZERO, ZERO))]
    if nm.endswith('Translation'):
        v = [U(x) for x in t.args[1:]]
        if len(v) == 1 and v[0] is not None and v[0].op == 'ctor':
            v = [U(x) for x in v[0].args[1:]]
        if len(v) == 3 and all(isinstance(x, T) for x in v) and v[2] is ZERO:
            return [('m', (ONE, ZERO, v[0], v[1]))]
    if nm.endswith('Matrix') and len(t.args) == 4:
        v = [U(x) for x in t.args[1:]]
        if all(isinstance(x, T) for x in v) and v[2] is ZERO:
            return [('m', (ONE, ZERO, v[0], v[1]))]
    return None


def product(fs):
    m = ID
    for k, x in fs:
        m = mmul(m, x)
    return m


def power(ctx, Q, t, A, g, what):
    """t is the k-th power of A"""
    w = t_mul(Q.w, Q.dt)
    L, I = Q.L, Q.I
    first, later = planar(t, w, AND(g, Q.first)), planar(t, w, AND(g, NOT(Q.first)))
    ok = first is not None and len(first) == 1 and first[0][0] == 's'
    ctx.ob('motion-of-the-command', ok, Q.site, '%s: first step is %s' % (what, show(t)[:200]))
    if not ok:
        return
    ph = first[0][1]
    ok = later is not None and sum(1 for x in later if x[0] == 's') == 1 and all(x[1] is ph for x in later if x[0] == 's') and (later[0][0] == 's' or later[-1][0] == 's')
    if ok:
        m = product([x for x in later if x[0] == 'm'])
        ok = msame(m, A)
    ctx.ob('motion-of-the-command', ok, Q.site, '%s: a step is %s' % (what, show(t)[:300]))
    ps = [p for p in L.phis if I.freeze(I.read1(p, L.head)).leaf is ph]
    if len(ps) != 1:
        raise AnchorMissing('loop variable of the motion')
    p = ps[0]
    e0 = planar(I.freeze(I.read1(p, L.entry)), w, TRUE)
    ctx.ob('motion-of-the-command', e0 is not None and all(x[0] == 'm' for x in e0) and msame(product(e0), ID), Q.site, '%s: starts at %s' % (what, show(I.freeze(I.read1(p, L.entry)))[:200]))
    n = nxt(Q, p)
    for s, want in ((Q.first, ID), (NOT(Q.first), A)):
        for h, x in cases(n):
            G = AND(h, s, L.next.g, Q.pre)
            if not sat(G):
                continue
            f = planar(x, w, G)
            ok = f is not None and sum(1 for y in f if y[0] == 's') == 1 and all(y[1] is ph for y in f if y[0] == 's') and (f[0][0] == 's' or f[-1][0] == 's')
            ctx.ob('motion-of-the-command', ok and msame(product([y for y in f if y[0] == 'm']), want), Q.site, '%s: becomes %s' % (what, show(x)[:300]))


def motion(ctx, N_, Q):
    I = Q.I
    w = t_mul(Q.w, Q.dt)
    c, s = trig(w, w)
    A = mmul((c, t_neg(s), ZERO, ZERO), (ONE, ZERO, t_neg(t_mul(Q.vx, Q.dt)), t_neg(t_mul(Q.vy, Q.dt))))
    B = minv(A)
    B = mmul((ONE, ZERO, t_mul(Q.vx, Q.dt), t_mul(Q.vy, Q.dt)), (c, s, ZERO, ZERO))
    comps = [own(Q, I.freeze(x)) for x in flat(Q.ins.args[0])]
    ctx.ob('motion-of-the-command', len(comps) == 2, Q.site, 'the tested point has %d components' % len(comps))
    if len(comps) != 2:
        return
    Q.tested = []
    seen = {}
    for i, n in enumerate('xy'):
        for h, t in cases(comps[i]):
            if not sat(AND(h, Q.ins.g, Q.pre)):
                continue
            ok = t.op == 'fld' and t.args[1] == n and t.args[0].op == 'call' and str(t.args[0].args[0]) == 'pcl::transformPoint'
            ctx.ob('tested-point', ok, Q.site, 'component %s of the tested point is %s' % (n, show(t)[:200]))
            if ok:
                seen.setdefault(id(t.args[0]), (t.args[0], []))[1].append(h)
    vals = FALSE
    X = None
    for t, hs in seen.values():
        Q.tested.append((t.args[1], OR(*hs)))
        v = ite(OR(*hs), t.args[2] if isinstance(t.args[2], N) else leaf(t.args[2]), X) if X is not None else (t.args[2] if isinstance(t.args[2], N) else leaf(t.args[2]))
        X = v
    if X is not None:
        power(ctx, Q, X, A, AND(Q.ins.g, Q.pre), 'motion of the points')
    # the search is around the moved robot
    rs = [e for e in I.events if e.kind == 'call' and e.name.endswith('radiusSearch')]
    for e in rs:
        v = own(Q, I.freeze(e.args[0]))
        X = None
        for h, t in cases(v):
            if not sat(AND(h, e.g, Q.pre)):
                continue
            ok = t.op == 'call' and str(t.args[0]) == 'pcl::transformPoint' and show(t.args[1]).startswith('default(')
            ctx.ob('searched-around-the-robot', ok, at(e), 'points are searched around ' + show(t)[:200])
            if ok:
                x = t.args[2] if isinstance(t.args[2], N) else leaf(t.args[2])
                X = x if X is None else ite(h, x, X)
        if X is not None:
            power(ctx, Q, X, B, AND(e.g, Q.pre), 'motion of the robot')


# ---- ratio

def ratio(ctx, N_, Q):
    I, L, c = Q.I, Q.L, Q.cfg
    site = at(Q.f)
    if not hasattr(Q, 'ref') or not hasattr(Q, 'nowg'):
        return
    P, one, two, over = Q.ref
    r = own(Q, Q.r)
    done = AND(L.exits[0].g, Q.pre)
    agree(ctx, 'no-contact-no-limit', site, r, leaf(ONE), done)
    delay = t_add(t_fdiv(ONE, c['freq']), Q.dt)
    stopped = OR(Q.nowg, Q.first)
    edge = []       # where the remaining distance is exactly zero both forms of the limit are zero

    def limit(acc, margin, d, v):
        """ratio allowed by distance d (guarded) at speed v (guarded)"""
        a = t_mul(acc, t_mul(delay, delay))

        def rem(ad):
            x = t_sub(t_add(t_sub(ad, margin), a), leafof(fn_leaf('sqrt', t_add(t_mul(a, a), t_mul(num(2), t_mul(a, ad))))))
            edge.append(x)
            return ite(cmp_terms('<', x, ZERO, False), leaf(ZERO), leaf(x))
        left = lift1(rem, lift1(absval, d))
        top = lift1c(lambda y: leafof(fn_leaf('sqrt', t_mul(num(2), t_mul(acc, y)))), left)
        return lift2(lambda x, y: ite(cmp_terms('==', y, ZERO, False), leaf(ONE), leaf(t_fdiv(x, y))), top, v)
    dist = {n: ite(stopped, leaf(ZERO), two[n]) for n in ('d', 'y')}
    dr = limit(c['lin_acc'], c['d_margin'], dist['d'], leaf(Q.lv))
    yr = limit(c['ang_acc'], c['yaw_margin'], dist['y'], absval(Q.w))
    want = lift2(lambda x, y: ite(cmp_terms('<', y, x, False), leaf(y), leaf(x)), dr, yr)
    DELAY = mk('par', 'delay')
    mp = {Q.dt: t_sub(DELAY, t_fdiv(ONE, c['freq']))}
    settings = {c[n] for n in ('lin_acc', 'ang_acc', 'd_margin', 'yaw_margin', 'freq', 'dt')} | {Q.vx, Q.vy, Q.w, P['d'][1], P['y'][1]}

    def numeric(t):
        if t in settings or t.op == 'num':
            return True
        if t.op == 'poly':
            return all(numeric(b) for m, k in t.args[0] for b, p in m)
        return t.op == 'fn' and all(numeric(y) for y in t.args[1:] if isinstance(y, T))

    kz_atom = atoms[Q.first.var]
    same_first = IFF(Q.first, cmp_terms('==', t_mul(Q.dt, Q.k), ZERO, False))

    def plain(g):
        """guard over the quantities of the formula only"""
        g = AND(g, same_first)
        for v in sorted(dvars(g)):
            t = atoms[v]
            if t in (kz_atom,):
                continue
            if t.op in ('lt', 'rle', 'le', 'eqn', 'isnan', 'isinf') and numeric(t.args[0]) or bvar(t) in (Q.nowg,):
                continue
            g = OR(restrict1(g, v, True), restrict1(g, v, False))
        return g
    pos = lambda t: cmp_terms('>', t, ZERO, False)
    base = {DELAY, c['lin_acc'], c['ang_acc'], c['freq']}

    def tidy(v):
        return positive(subst(v, mp), base)
    pre = AND(pos(DELAY), *[pos(c[n]) for n in ('lin_acc', 'ang_acc')])
    pre = AND(pre, *[pos(c[n]) for n in ('d_margin', 'yaw_margin')])
    keep = plain(AND(Q.nowg, TRUE))
    for x in L.exits[1:]:
        if x is None:
            continue
        got = FALSE
        gate = AND(plain(x.g), TRUE)
        A = AND(tidy(gate), *[tidy(NOT(cmp_terms('==', y, ZERO, False))) for y in edge])
        R = Rat()
        bad = None
        rows = guarded([(tidy(plain(AND(g, x.g))), tidy(t)) for g, t in cases(r) if sat(AND(g, x.g, Q.pre))])
        wants = guarded([(tidy(plain(AND(h, x.g))), tidy(u)) for h, u in cases(want) if sat(AND(h, x.g, Q.pre))])
        for t, g in rows:
            D = AND(A, pre, g, NOT(OR(*[AND(h, TRUE if R.eq(t, u) else cmp_terms('==', t, u, False) if arithmetic(t) and arithmetic(u) else FALSE) for u, h in wants])))
            if D is FALSE or not deep(D):
                continue
            bad = 'is %s when %s' % (show(t)[:300], witness(D)[:1500])
            break
        ctx.ob('ratio-stops-before-contact', bad is None, site, bad or '')


def guarded(rows):
    """values with all guards they occur under"""
    d = {}
    for g, t in rows:
        d[t] = OR(d.get(t, FALSE), g)
    return list(d.items())


def deep(g):
    return sat(g) and witness(g) != '(none)'


def positive(v, base):
    """terms or guarded values rewritten knowing that the terms of base are positive"""
    memo = {}

    def st(t):
        if t in memo:
            return memo[t]
        r = t
        if t.op == 'poly':
            r = ZERO
            for m, k in t.args[0]:
                x = num(k)
                for b, p in m:
                    y = st(b)
                    for _ in range(abs(p)):
                        x = t_mul(x, y) if p > 0 else t_fdiv(x, y)
                r = t_add(r, x)
        elif t.op == 'fn':
            a = [st(x) for x in t.args[1:]]
            r = leafof(fn_leaf(t.args[0], *a))
            if t.args[0] == 'sqrt':
                ms = list(topoly(a[0]).items())
                if len(ms) == 1 and all(b in base and p % 2 == 0 for b, p in ms[0][0]):
                    q = leafof(fn_leaf('sqrt', num(ms[0][1])))
                    if q.op == 'num':
                        for b, p in ms[0][0]:
                            for _ in range(abs(p) // 2):
                                q = t_mul(q, b) if p > 0 else t_fdiv(q, b)
                        r = q
        elif t.op in ('isnan', 'isinf'):
            r = mk(t.op, st(t.args[0]))
        memo[t] = r
        return r

    def div(t):
        """t without positive factors common to its monomials"""
        ms = list(topoly(t))
        if not ms:
            return t
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            com = {b: min(p, d[b]) for b, p in com.items() if b in d}
        for b, p in com.items():
            if b in base:
                for _ in range(abs(p)):
                    t = t_fdiv(t, b) if p > 0 else t_mul(t, b)
        return t

    def at_(a):
        if a.op in ('lt', 'rle', 'le') and a.args[1] == 0:
            return cmp_terms('<' if a.op == 'lt' else '<=', div(st(a.args[0])), ZERO, a.op == 'le')
        if a.op == 'eqn' and a.args[1] == 0:
            return cmp_terms('==', div(st(a.args[0])), ZERO, a.args[2])
        if a.op in ('lt', 'rle', 'le'):
            return cmp_terms('<' if a.op == 'lt' else '<=', st(a.args[0]), num(a.args[1]), a.op == 'le')
        if a.op == 'eqn':
            return cmp_terms('==', st(a.args[0]), num(a.args[1]), a.args[2])
        if a.op in ('isnan', 'isinf'):
            return notfinite(a.op, st(a.args[0]))
        return bvar(a)

    def notfinite(op, t):
        """a quotient of finite numbers is infinite or not a number exactly when the divisor is zero"""
        ms = list(topoly(t).items())
        if not ms or any(len([1 for b, p in m if p < 0]) == 0 for m, k in ms):
            return bvar(mk(op, t))
        dens = {b for m, k in ms for b, p in m if p < 0}
        zero = OR(*[cmp_terms('==', div(b), ZERO, False) for b in dens])
        n = t
        for b in dens:
            n = t_mul(n, b)
        if len(ms) == 1:
            nz = OR(*[cmp_terms('==', div(st(b.args[1])) if b.op == 'fn' and b.args[0] == 'sqrt' else b, ZERO, False) for b, p in ms[0][0] if p > 0 and b not in base])
        else:
            nz = cmp_terms('==', div(n), ZERO, False)
        return AND(zero, nz if op == 'isnan' else NOT(nz))
    gm = {}

    def g(n):
        if n.leaf is not None:
            return n if n.leaf.op in ('true', 'false') else leaf(st(n.leaf))
        if n.id not in gm:
            gm[n.id] = ite(at_(atoms[n.var]), g(n.hi), g(n.lo))
        return gm[n.id]
    return st(v) if isinstance(v, T) else g(v)


def nsize(t):
    return ZERO if t.op == 'nopoints' else mk('fld', mk('fld', t, 'points'), '#size')


def tf_moved(ctx, rule, site, I, M, target, frame, stamp, g, what):
    """M = moved(content, transform): the transform is that from frame to target at stamp (or the latest); returns the content"""
    if M.op != 'moved':
        ctx.ob(rule, False, site, '%s is %s' % (what, show(M)[:300]))
        return None
    t = M.args[1]
    look = [x for x in terms_in(t if isinstance(t, N) else leaf(t), 'call') if str(x.args[0]).endswith('Buffer::lookupTransform')]
    look = list(dict.fromkeys(look))
    ok = len(look) == 1
    ctx.ob(rule, ok, site, '%s: moved by %s' % (what, show(t)[:300]))
    if not ok:
        return None
    lk = look[0]
    ok = lk.args[2] is target
    ctx.ob(rule, ok, site, '%s: moved into frame %s' % (what, show(lk.args[2])))
    ctx.ob(rule, lk.args[3] is frame, site, '%s: moved from frame %s' % (what, show(lk.args[3])))
    ctx.ob(rule, lk.args[4] is ZERO or stamp(lk.args[4]), site, '%s: moved as of %s' % (what, show(lk.args[4])))
    ctx.ob(rule, is_transform(t, lk), site, '%s: moved by %s' % (what, show(t)[:400]))
    return M.args[0]


def is_transform(t, lk):
    """t is the rigid motion described by a transform message"""
    if t is lk:
        return True
    if t.op == 'ctor' and str(t.args[0]).endswith('Transform') and len(t.args) == 2:
        return is_transform(t.args[1], lk)
    tr = mk('fld', lk, 'transform')
    if t.op == 'call' and t.args[0] in ('tf2::transformToEigen',) and t.args[1] in (lk, tr):
        return True
    if t.op == 'call' and str(t.args[0]).endswith('::operator*') and len(t.args) == 3:
        a, b = t.args[1:]
        return is_part(a, 'Translation', mk('fld', tr, 'translation'), 'xyz') and is_part(b, 'Quaternion', mk('fld', tr, 'rotation'), 'wxyz')
    return False


def is_part(t, kind, m, names):
    while t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T):
        t = t.args[1]
    if t.op != 'ctor' or kind not in str(t.args[0]) and not str(t.args[0]).endswith('Matrix'):
        return False
    return list(t.args[1:]) == [mk('fld', m, n) for n in names]


def points(ctx, N_, Q):
    I, L, c, site = Q.I, Q.L, Q.cfg, Q.site
    base = N_.params.get('base_frame')
    if not getattr(Q, 'tested', None) or base is None:
        raise AnchorMissing('tested point')
    clouds = {}
    rs = [e for e in I.events if e.kind == 'call' and e.name.endswith('radiusSearch')]
    for p, g in Q.tested:
        for h, t in cases(p if isinstance(p, N) else leaf(p)):
            G = AND(g, h, Q.pre, Q.ins.g)
            if not sat(G):
                continue
            ok = t.op == 'elem' and t.args[0].op == 'fld' and t.args[0].args[1] == 'points'
            ctx.ob('tests-the-cloud', ok, site, 'the tested point is %s' % show(t)[:300])
            if not ok:
                continue
            C, k = t.args[0].args[0], t.args[1]
            clouds.setdefault(C, []).append(G)
            l = Q.ins.loops[1] if len(Q.ins.loops) > 1 else None
            if k.op == 'elem' and k.args[0].op == 'hits':
                hh = k.args[0]
                ok = hh.args[1] is C and l is not None and k.args[1] is l.ind
                ctx.ob('tests-the-cloud', ok, site, 'the tested point is number %s of the points found in %s' % (show(k.args[1]), show(hh.args[1])[:200]))
                ctx.ob('tests-the-cloud', hh.args[3] is getattr(Q, 'radius', hh.args[3]), site, 'points are searched within %s' % show(hh.args[3]))
                Q.radius = hh.args[3]
                n = mk('fld', hh, '#size')
            else:
                n = nsize(C)
                ctx.ob('tests-the-cloud', l is not None and k is l.ind, site, 'the tested point is number %s' % show(k)[:200])
            if l is not None:
                IN.int_terms.add(n)
                IN.unsigned_terms.add(n)
                run = AND(Q.pre, L.body_g, h, g)
                ctx.entail('tests-the-cloud', AND(run, l.body_g), cmp_terms('<', l.ind, n, True), site, 'a point past the end is tested')
                ctx.entail('tests-the-cloud', AND(run, l.exits[0].g), cmp_terms('>=', l.ind, n, True), site, 'points are left out')
                ctx.entail('tests-the-cloud', AND(run, cmp_terms('>', n, ZERO, True)), LIVE(Q, l), site, 'the points are not tested')
    ctx.ob('tests-the-cloud', bool(clouds), site, 'no point is tested')
    rem = [e for e in I.events if e.name == 'removal']
    accs = set()
    sizes = FALSE
    for C, gs in clouds.items():
        seen = set()
        t = C
        while t.op in ('kept', 'grid'):
            if t.op in seen:
                break
            seen.add(t.op)
            if t.op == 'grid' and 'kept' not in seen:
                break
            t = t.args[0]
        ctx.ob('height-range-only', seen == {'kept', 'grid'} or seen == {'kept'}, site, 'points tested are %s' % show(C)[:300])
        acc = t.args[0] if t.op == 'moved' else None
        fr = mk('fld', mk('fld', acc, 'header'), 'frame_id') if acc is not None else None
        st_ = mk('fld', mk('fld', acc, 'header'), 'stamp') if acc is not None else None
        acc = tf_moved(ctx, 'cloud-in-robot-frame', site, I, t, base, fr, lambda x: x is st_ or x.op == 'call' and x.args[-1] is st_, TRUE, 'cloud')
        if acc is not None:
            accs.add(acc)
    ctx.ob('cloud-in-robot-frame', len(accs) == 1, site, '%d clouds are used' % len(accs))
    if len(accs) != 1:
        return
    Q.acc = list(accs)[0]
    ctx.ob('height-range-only', len(rem) == 1, site, '%d removals of points' % len(rem))
    pz = mk('fld', PT, 'z')
    for e in rem:
        out = e.args[0]
        want = OR(cmp_terms('<', pz, c['z_range_min'], False), cmp_terms('>', pz, c['z_range_max'], False))
        ctx.entail('height-range-only', out, want, at(e), 'a point within the height range is removed')
        ctx.entail('height-range-only', want, out, at(e), 'a point outside the height range is kept')
        agree(ctx, 'points-projected', at(e), e.args[1], leaf(ZERO), NOT(out), 'height')
        for v, n in zip(e.args[2:], 'xy'):
            agree(ctx, 'points-projected', at(e), v, leaf(mk('fld', PT, n)), NOT(out), n)
    # without points, without transform
    n0 = nsize(Q.acc)
    IN.int_terms.add(n0)
    IN.unsigned_terms.add(n0)
    some = cmp_terms('>', n0, ZERO, True)
    fail = OR(*[bvar(t) for e in [I_ for I_ in (Q.r,)] for t in [atoms[v] for v in dvars(e)] if t.op == 'throws'])
    left = FALSE
    none = FALSE
    for C, gs in clouds.items():
        n1 = nsize(C)
        IN.int_terms.add(n1)
        IN.unsigned_terms.add(n1)
        z = cmp_terms('<=', n1, ZERO, True)
        none = OR(none, AND(OR(*[strip(g, Q) for g in gs]), z)) if len(clouds) > 1 else z
    allow = c['allow_empty_cloud']
    empty = ite(tobool(leaf(allow)), leaf(ONE), leaf(ZERO))
    r = own(Q, Q.r)
    agree(ctx, 'no-points', at(Q.f), r, empty, NOT(some))
    agree(ctx, 'no-transform-stops', at(Q.f), r, leaf(ZERO), AND(some, fail))
    agree(ctx, 'no-points', at(Q.f), r, empty, AND(some, NOT(fail), none))
    ctx.entail('points-are-simulated', AND(some, NOT(fail), NOT(none)), L.entry.g, at(Q.f), 'no simulation although there are points')
    # the accumulated cloud is not changed by a prediction
    v = content(I, Q.st, Q.acc)
    bad = [t for h, t in cases(v) if t is not Q.acc and sat(h)]
    ctx.ob('cloud-survives-prediction', not bad, at(Q.f), 'a prediction changes the accumulated points to %s' % ', '.join(show(b)[:200] for b in bad))
    hd = mk('fld', mk('fld', Q.acc, 'header'), 'frame_id')
    v = I.freeze(I.read1(hd, Q.st))
    ctx.ob('cloud-survives-prediction', v.leaf is hd, at(Q.f), 'a prediction changes the frame of the accumulated points to %s' % show(v)[:200])
    if Q.acc.op == 'deref':
        v = I.freeze(I.read1(Q.acc.args[0], Q.st))
        ctx.ob('cloud-survives-prediction', v.leaf is Q.acc.args[0], at(Q.f), 'a prediction replaces the accumulated points')


def strip(g, Q):
    """conditions outside the loops"""
    for v in sorted(dvars(g)):
        t = atoms[v]
        if t.op == 'call' and str(t.args[0]).endswith('canTransform'):
            continue
        g = OR(restrict1(g, v, True), restrict1(g, v, False))
    return g


def LIVE(Q, l):
    """the inner loop is reached"""
    return l.entry.g


def footprint(ctx, N_, Q):
    """polygon = parameter, closed; radius = farthest vertex"""
    I, st = N_.I, N_.st
    poly = None
    for g, t in cases(Q.ins.loc):
        poly = t
    site = at(N_.ctor)
    pushes = [e for e in I.events if e.kind == 'push' and e.obj is not None and any(poly in subterms(t) for g, t in cases(e.obj if isinstance(e.obj, N) else leaf(e.obj)))]
    ctx.need('footprint vertices', len(pushes), 1)
    raw = mk('param', 'footprint')
    has = bvar(mk('hasparam', 'footprint'))
    inl = [e for e in pushes if e.loops]
    last = [e for e in pushes if not e.loops]
    ctx.ob('footprint-as-configured', len(inl) == 1 and len(last) == 1, site, '%d vertices per parameter entry and %d further ones' % (len(inl), len(last)))
    if len(inl) != 1 or len(last) != 1:
        return
    e = inl[0]
    l = e.loops[-1]
    n = mk('fld', raw, '#size')
    IN.int_terms.add(n)
    comps = flat(e.args[0])
    if len(comps) == 1 and isinstance(comps[0], N) and comps[0].leaf is not None and comps[0].leaf.op == 'recv':
        comps = flat(comps[0].leaf.args[0].val)
    ctx.ob('footprint-as-configured', len(comps) == 2, at(e), 'a vertex has %d components' % len(comps))
    V = [mk('fld', mk('elem', mk('elem', raw, l.ind), num(i)), '#num') for i in (0, 1)]
    for v, w in zip(comps, V):
        agree(ctx, 'footprint-as-configured', at(e), I.freeze(v) if not isinstance(v, T) else leaf(v), leaf(w), AND(e.g, has))
    start = I.freeze(I.read1(phi_of(l, I), l.entry)) if False else None
    i0 = induction_start(I, l)
    ctx.ob('footprint-as-configured', i0 is ZERO, at(e), 'vertices are read from entry %s' % show(i0) if i0 is not None else 'vertices are read')
    ctx.entail('footprint-as-configured', AND(l.body_g, l.next.g), e.g, at(e), 'a vertex is left out')
    ctx.entail('footprint-as-configured', l.exits[0].g, cmp_terms('>=', l.ind, n, True), at(e), 'vertices are left out')
    f = I.freeze(last[0].args[0])
    ok = f.leaf is not None and f.leaf.op == 'elem' and f.leaf.args[1] is ZERO
    ctx.ob('footprint-closed', ok and last[0].seq > e.seq, at(last[0]), 'the outline is closed by %s' % show(f)[:200])
    rad = getattr(Q, 'radius', None)
    if rad is None:
        return
    ctx.ob('radius-covers-footprint', rad.op == 'fld' and rootloc(rad).op == 'this', site, 'the search radius is %s' % show(rad))
    if not (rad.op == 'fld' and rootloc(rad).op == 'this'):
        return
    ls = list({id(x): x for y in I.events for x in y.loops if rad in x.phis}.values())
    ctx.ob('radius-covers-footprint', len(ls) == 1, site, 'the search radius is not computed over the vertices')
    if len(ls) != 1:
        return
    l = ls[0]
    h = I.freeze(I.read1(rad, l.head))
    nx = I.freeze(I.read1(rad, l.next))
    V = [mk('fld', mk('elem', mk('elem', raw, l.ind), num(i)), '#num') for i in (0, 1)]
    d = leaf(leafof(fn_leaf('sqrt', t_add(t_mul(V[0], V[0]), t_mul(V[1], V[1])))))
    want = lift2(lambda a, b: ite(cmp_terms('<', a, b, False), leaf(b), leaf(a)), h, d)
    agree(ctx, 'radius-covers-footprint', site, nx, want, AND(l.next.g, has))
    agree(ctx, 'radius-covers-footprint', site, I.freeze(I.read1(rad, l.entry)), leaf(ZERO), TRUE)
    ctx.entail('radius-covers-footprint', l.exits[0].g, cmp_terms('>=', l.ind, n, True), site, 'vertices are left out of the radius')


def induction_start(I, l):
    for p, x in l.phis.items():
        if x is not None:
            h = I.freeze(I.read1(p, l.head)).leaf
            if h is l.ind:
                return I.freeze(I.read1(p, l.entry)).leaf
    return ZERO


def horizon(ctx, N_, Q):
    """the simulated time covers braking from the maximum velocity and the margins"""
    I, L, c = Q.I, Q.L, Q.cfg
    site = Q.site
    Ic, sc = Q.param
    tk = t_mul(Q.dt, Q.k)
    T_ = None
    for v in dvars(L.cond):
        t = atoms[v]
        for x in subterms(t):
            if x.op == 'fld' and x.args[0].op == 'this' and x in written(Ic, sc) and x is not Q.dt:
                T_ = x
    ctx.ob('horizon-covers-braking', T_ is not None, site, 'the simulated time is bounded by %s' % show(L.cond)[:300])
    if T_ is None:
        return
    want = cmp_terms('<', tk, T_, False)
    ctx.entail('horizon-covers-braking', AND(L.exits[0].g, Q.pre), NOT(want), site, 'the simulation stops before the horizon')
    ctx.entail('horizon-covers-braking', AND(L.body_g, Q.pre), want, site, 'the simulation goes past the horizon')
    inv = {l: n for n, l in c.items()}
    f = N_.func(param_cb(N_).qn) if False else param_cb(N_)
    cfg = None
    for l in written(Ic, sc):
        v = Ic.freeze(Ic.read1(l, sc))
        if v.leaf is not None and v.leaf.op == 'fld' and v.leaf.args[0].op == 'par':
            cfg = v.leaf.args[0]
    F = lambda n: mk('fld', cfg, n)
    mx = lambda a, b: ite(cmp_terms('<', a, b, False), leaf(b), leaf(a))
    m1 = lift1(lambda x: lift1(lambda y: leaf(t_mul(y, num(Fraction(3, 2)))), mx(x, t_fdiv(F('ang_vel'), F('ang_acc')))), leaf(t_fdiv(F('lin_vel'), F('lin_acc'))))
    m2 = mx(t_fdiv(F('d_margin'), F('lin_vel')), t_fdiv(F('yaw_margin'), F('ang_vel')))
    ref = lift2c(t_add, m1, m2)
    pos = AND(*[cmp_terms('>', t_fdiv(F(a), F(b)), ZERO, False) for a, b in (('lin_vel', 'lin_acc'), ('ang_vel', 'ang_acc'))])
    got = Ic.freeze(Ic.read1(T_, sc))
    # the horizon is at least the reference
    less = lift2(lambda a, b: cmp_terms('<', a, b, False), got, ref)
    ctx.entail('horizon-covers-braking', pos, NOT(tobool(less)), at(f), 'the simulated time is shorter than braking and margins take')


def status(ctx, N_, Q):
    """since when the robot is stuck"""
    I, L = Q.I, Q.L
    if not hasattr(Q, 'now'):
        raise AnchorMissing('contact at the start')
    stuck = None
    pub = N_.publisher('status')
    for e in N_.I.events:
        for a in e.args:
            for u in funcs_in(a):
                f = N_.func(u)
                Id, rd, sd = N_.run(f) if f.qn.startswith(CLS) and 'diagnose' in f.qn or False else (None, None, None)
                if Id is None:
                    continue
                for ev, g, v in N_.published(Id, pub):
                    t = msgf(Id, v, 'stuck_started_since', ty=None)
                    if t.leaf is not None and t.leaf.op == 'fld':
                        stuck = t.leaf
                        flag = TRUE
    if stuck is None:
        raise AnchorMissing('time since when the robot is stuck')
    site = at(Q.f)
    got = tnum(I.freeze(I.read1(stuck, Q.st)))
    nows = [t for g, t in cases(got) if t.op in ('now', 'secs') and t is not stuck or t.op == 'now']
    for x in L.exits:
        if x is None:
            continue
        h = tobool(I.freeze(I.read1(Q.now, x)))
        zero = cmp_terms('==', tnum(leaf(stuck)).leaf, ZERO, False)
        for g, t in cases(got):
            G = AND(g, x.g, Q.pre)
            if not sat(G):
                continue
            is0, keep, new = t is ZERO, t is stuck or t is tnum(leaf(stuck)).leaf, t.op == 'now'
            ctx.ob('stuck-since-first-contact', is0 or keep or new, site, 'becomes %s' % show(t)[:200])
            if new:
                ctx.entail('stuck-since-first-contact', G, AND(h, zero), site, 'the time is restarted')
            elif is0:
                ctx.entail('stuck-since-first-contact', G, NOT(h), site, 'the time is cleared in contact')
            elif keep:
                ctx.entail('stuck-since-first-contact', G, OR(AND(h, NOT(zero)), AND(NOT(h), zero)), site, 'the time is kept')


def accumulation(ctx, N_, Q):
    """clouds are joined in the fixed frame until a prediction used them"""
    acc = getattr(Q, 'acc', None)
    if acc is None or acc.op != 'deref':
        raise AnchorMissing('accumulated cloud')
    ptr = acc.args[0]
    f = N_.callback('cloud')
    site = at(f)
    hooks = pcl_hooks()
    I, r, st = N_.run(f, hooks=hooks)
    m = par_msg(f)
    fixed = N_.params.get('fixed_frame')
    if fixed is None:
        raise AnchorMissing('fixed frame')
    fail = OR(*[bvar(t) for t in {atoms[v] for e in I.events for v in dvars(e.g)} if t.op == 'throws'])
    p = I.freeze(I.read1(ptr, st))
    got = lift1(lambda t: content(I, st, I.deref(leaf(t))), p)
    nodata = cmp_terms('<=', mk('fld', mk('fld', m, 'data'), '#size'), ZERO, True)
    IN.int_terms.add(mk('fld', mk('fld', m, 'data'), '#size'))
    IN.unsigned_terms.add(mk('fld', mk('fld', m, 'data'), '#size'))
    flags = set()
    for l in written(I, st):
        v = I.freeze(I.read1(l, st))
        if not all(t.op in ('true', 'false') or t is l for t in leaves(v)):
            continue
        for g, t in cases(got):
            if bvar(l).var in dvars(g) and rootloc(l).op == 'this':
                flags.add(l)
    ctx.ob('cleared-once-used', len(flags) == 1, site, '%d flags decide whether the points are started anew' % len(flags))
    if len(flags) != 1:
        return
    flag = list(flags)[0]
    F = bvar(flag)
    ok_g = OR(nodata, NOT(fail))
    for g, t in cases(got):
        if not sat(AND(g, ok_g)):
            pass
        G = AND(g, ok_g)
        if sat(G):
            ok = t.op == 'joined' and t.args[0] in (acc, mk('nopoints'))
            if not ok and t in (acc, mk('nopoints')) and not sat(AND(G, NOT(nodata))):
                old, new = t, mk('nopoints')
                ok = True
            elif ok:
                old, new = t.args
            elif t.op in ('points', 'moved'):
                old, new, ok = mk('nopoints'), t, True
            ctx.ob('clouds-joined', ok, site, 'the accumulated points become %s' % show(t)[:300])
            if not ok:
                continue
            if old is acc:
                ctx.entail('cleared-once-used', G, NOT(F), site, 'points of before the prediction are kept')
            else:
                ctx.entail('cleared-once-used', G, F, site, 'points which no prediction has used are dropped')
            if new.op == 'nopoints':
                ctx.entail('clouds-joined', G, nodata, site, 'points of the message are dropped')
            else:
                M = new.args[0] if new.op == 'points' else new
                fr = mk('fld', mk('fld', m, 'header'), 'frame_id')
                sp = mk('fld', mk('fld', m, 'header'), 'stamp')
                src = tf_moved(ctx, 'joined-in-fixed-frame', site, I, M, fixed, fr, lambda x: x is sp or x is mk('secs', sp), TRUE, 'points of the message')
                ctx.ob('joined-in-fixed-frame', src is m or src is mk('points', m), site, 'points of %s are joined' % (show(src)[:200] if src is not None else '?'))
        if sat(AND(g, NOT(ok_g))):
            ctx.ob('clouds-joined', t is acc or not sat(AND(g, NOT(ok_g))), site, 'without transform the points become %s' % show(t)[:200])
    v = tobool(I.freeze(I.read1(flag, st)))
    ctx.entail('cleared-once-used', AND(ok_g, v), FALSE, site, 'points are started anew without a prediction')
    hd = lift1(lambda t: I.freeze(I.read(lift1(lambda o: leaf(mk('fld', mk('fld', o, 'header'), 'frame_id')), I.deref(leaf(t)) if isinstance(I.deref(leaf(t)), N) else leaf(I.deref(leaf(t)))), st)), p)
    bad = [t for g, t in cases(hd) if sat(AND(g, ok_g)) and t is not fixed]
    ctx.ob('joined-in-fixed-frame', not bad, site, 'the frame of the accumulated points is %s' % ', '.join(show(b)[:100] for b in bad))
    # a prediction marks the points as used
    for u, e in N_.timers:
        g_ = N_.func(u)
        It, rt, stt = N_.run(g_, hooks={Q.f.qn: s01.predicted})
        pe = [x for x in It.events if x.kind == 'call' and x.name == 'predict' or str(x.name) == Q.f.qn]
        for x in pe:
            v = tobool(It.freeze(It.read1(flag, stt)))
            ctx.entail('cleared-once-used', x.g, v, at(x), 'the used points are kept for the next prediction')
