"""Safety limiter: what is published, when the robot is stopped, and how the ratio changes."""
from rosmodel import *
UNITS = ['safety_limiter/src/safety_limiter.cpp']
CLS = 'safety_limiter::SafetyLimiterNode'
EXPLANATION = ('Anchors are taken from topic names, parameters and status fields. Every callback of the node is summarised over an arbitrary state; '
               'published commands and the transition of each state variable are compared with the reference by exact rational functions under all guards.')
ASSUMPTIONS = ['callbacks run one at a time (single-threaded spinner)', 'times are real numbers', 'velocity limits and the ratio are not negative']


def check(ctx):
    N = RosNode(ctx, CLS, ['spin'])
    R = Roles(ctx, N)
    if not R.ok:
        return
    ctx.part(answers, N, R)
    ctx.part(transitions, N, R)
    if hasattr(R, 'tick'):
        ctx.part(timers, N, R)


def final(I, st, loc, ty=FLT):
    return I.freeze(I.typed(I.read1(loc, st), ty))


BOOL = {'c': 'bool'}


class Roles(object):
    """state variables by what the status message, parameters and configuration call them"""

    def __init__(self, ctx, N):
        self.cmd = N.publisher('cmd_vel')
        self.twist = N.callback('cmd_vel_in')
        self.disable = N.callback('disable_safety')
        self.reset = N.callback('watchdog_reset')
        self.cloud = N.callback('cloud')
        fs = []
        for e in N.I.events:
            for a in e.args:
                for u in funcs_in(a):
                    if u.startswith(CLS) and u not in fs:
                        fs.append(u)
        self.tick = None
        for u, e in N.timers:
            if u not in fs:
                fs.append(u)
        self.all = [N.func(u) for u in fs]
        ctx.need('callbacks', len(self.all), 8)
        stat = N.publisher('status')
        self.diag = None
        for f in self.all:
            if f in (self.twist, self.cloud):
                continue
        self.param = None
        for e in N.I.events:
            if e.kind == 'call' and e.name.endswith('Server::setCallback'):
                us = [u for a in e.args for u in funcs_in(a)]
                self.param = N.func(us[0]) if us else None
        if self.param is None:
            raise AnchorMissing('parameter callback')
        self.runs = {}
        hook = {}
        pr = predictors(ctx)
        self.predict = pr[0]
        hook = {pr[0].qn: predicted}
        for f in self.all:
            IN.int_terms.clear()
            IN.unsigned_terms.clear()
            self.runs[f] = N.run(f, hooks=hook)
        this = mk('this')
        self.msg = {}
        for f in self.all:
            I, r, st = self.runs[f]
            ps = N.published(I, stat)
            if ps:
                self.diag = f
                v = ps[0][2]
                for n in ('limit_ratio', 'is_cloud_available', 'has_watchdog_timed_out', 'stuck_started_since'):
                    t = msgf(I, v, n, ty=None)
                    if t.leaf is not None and t.leaf.op == 'fld':
                        self.msg[n] = t.leaf
                    else:
                        b = [atoms[x] for x in dvars(t)]
                        self.msg[n] = b[0] if len(b) == 1 else None
        for n in ('limit_ratio', 'is_cloud_available', 'has_watchdog_timed_out'):
            if self.msg.get(n) is None:
                raise AnchorMissing('status %s' % n)
        self.ratio, self.has_cloud, self.expired = [self.msg[n] for n in ('limit_ratio', 'is_cloud_available', 'has_watchdog_timed_out')]
        # configuration
        I, r, st = self.runs[self.param]
        self.cfg = {}
        cfg = mk('par', self.param.params[0]['n'] if isinstance(self.param.params[0], dict) and 'n' in self.param.params[0] else 'config')
        for l in written(I, st):
            v = I.freeze(I.typed(I.read1(l, st), None)) if False else I.freeze(I.read1(l, st))
            if v.leaf is not None and v.leaf.op == 'fld' and v.leaf.args[0].op == 'par':
                self.cfg[v.leaf.args[1]] = l
            elif v.leaf is None and len(dvars(v)) == 1:
                a = atoms[list(dvars(v))[0]]
                if a.op == 'fld' and a.args[0].op == 'par':
                    self.cfg[a.args[1]] = l
        self.hold = None
        for l in written(I, st):
            v = I.freeze(I.read1(l, st))
            if any(t.args[1] == 'hold' and t.args[0].op == 'par' for t in terms_in(v, 'fld')):
                self.hold = l
        # flags a callback raises for good
        self.started = set()
        I, r, st = self.runs[self.twist]
        for l in written(I, st):
            if I.freeze(I.read1(l, st)) is TRUE:
                self.started.add(l)
        self.vmax = [self.cfg.get('max_linear_vel'), self.cfg.get('max_angular_vel')]
        for n in ('disable_timeout', 'cloud_timeout', 'freq', 'max_linear_vel', 'max_angular_vel'):
            if n not in self.cfg:
                ctx.ob('configuration-applied', False, at(self.param), '%s of the configuration is not stored' % n)
        if self.hold is None:
            ctx.ob('configuration-applied', False, at(self.param), 'the hold time of the configuration is not stored')
        self.ok = self.hold is not None and len([o for o in ctx.obs if not o[2]]) == 0

    def at0(self, l):
        return leaf(l)


def now_terms(I):
    return [t for e in I.events if e.kind == 'call' and e.name.endswith('::now') and e.val is not None for t in leaves(e.val)]


def limited(R, xyz):
    """command kept within the velocity limits"""
    x, y, w = xyz
    vl, va = R.vmax
    n = lift2c(lambda a, b: leafof(fn_leaf('sqrt', t_add(t_mul(a, a), t_mul(b, b)))), x, y)
    none = cmp_terms('<=', vl, ZERO, False)
    over = lift1(lambda t: cmp_terms('>', t, vl, False), n)
    lin = lambda c: ite(none, leaf(ZERO), ite(over, lift2c(lambda a, m: t_fdiv(t_mul(a, vl), m), c, n), c))
    ang = lift1c(lambda t: ite(cmp_terms('>', t, va, False), leaf(va), ite(cmp_terms('<', t, t_neg(va), False), leaf(t_neg(va)), leaf(t))), w)
    return [lin(x), lin(y), ang]


COMP = (('linear', 'x'), ('linear', 'y'), ('angular', 'z'))
REST = (('linear', 'z'), ('angular', 'x'), ('angular', 'y'))


def answers(ctx, N, R):
    I, r, st = R.runs[R.twist]
    site = at(R.twist)
    ps = N.published(I, R.cmd)
    ctx.ob('every-command-answered', bool(ps), site, 'nothing is published for a command')
    ctx.entail('every-command-answered', TRUE, OR(*[g for _, g, _ in ps]) if ps else FALSE, site)
    for a in range(len(ps)):
        for b in range(a + 1, len(ps)):
            ctx.entail('answered-once', AND(ps[a][1], ps[b][1]), FALSE, at(ps[b][0]), 'a command is answered twice')
    ld = disable_time(ctx, N, R)
    ns = now_terms(I)
    ctx.need('clock readings of the command callback', len(ns))
    off = cmp_terms('<', t_sub(ns[0], ld), R.cfg['disable_timeout'], False)
    stopped = OR(NOT(bvar(R.has_cloud)), bvar(R.expired))
    msg = [t for e, g, v in ps for c in COMP for t in terms_in(msgf(I, v, *c), 'fld')]
    msg = [t for t in msg if t.args[1] in ('x', 'y', 'z') and rootloc_par(t) is not None]
    inp = next((t.args[0].args[0] for t in msg if t.args[0].op == 'fld'), None)
    if inp is None:
        ctx.ob('command-scaled-and-limited', False, site, 'the output does not depend on the command')
        return
    cmd = [leaf(mk('fld', mk('fld', inp, a), b)) for a, b in COMP]
    eps = num(Fraction(1) - Fraction(1, 10**6))
    r_ = R.ratio
    part = cmp_terms('<', r_, eps, False)
    scaled = [ite(part, lift1c(lambda t: t_mul(t, r_), c), c) for c in cmd]
    want_off, want_on = limited(R, cmd), limited(R, scaled)
    pre = AND(cmp_terms('>=', R.vmax[1], ZERO, False), cmp_terms('>=', r_, ZERO, False))
    for e, g, v in ps:
        G = AND(pre, g)
        for k, c in enumerate(COMP):
            got = lib(msgf(I, v, *c))
            w = ite(off, want_off[k], ite(stopped, leaf(ZERO), want_on[k]))
            agree(ctx, 'command-scaled-and-limited', at(e), near_eps(got, eps), w, G, '.'.join(c))


def near_eps(v, eps):
    """comparisons with a number within 2e-7 of eps are comparisons with eps (single precision constant)"""
    mp = {}
    for x in dvars(v):
        a = atoms[x]
        if a.op in ('lt', 'rle') and isinstance(a.args[1], Fraction) and abs(abs(a.args[1]) - eps.args[0]) < Fraction(2, 10**7) and abs(a.args[1]) != eps.args[0]:
            s = 1 if a.args[1] > 0 else -1
            mp[a] = mk(a.op, a.args[0], s * eps.args[0], *a.args[2:])
    if not mp:
        return v
    memo = {}

    def go(n):
        if n.leaf is not None:
            return n
        if n.id in memo:
            return memo[n.id]
        a = atoms[n.var]
        r = ite(bvar(mp.get(a, a)), go(n.hi), go(n.lo))
        memo[n.id] = r
        return r
    return go(v)


def rootloc_par(t):
    while t.op in ('fld', 'elem', 'deref') and isinstance(t.args[0], T):
        t = t.args[0]
    return t if t.op == 'par' else None


def disable_time(ctx, N, R):
    """location holding the time of the last disable request"""
    I, r, st = R.runs[R.disable]
    site = at(R.disable)
    ws = written(I, st)
    if len(ws) != 1:
        raise AnchorMissing('state of the disable request: %d locations' % len(ws))
    l = ws[0]
    v = tnum(final(I, st, l))
    ns = now_terms(I)
    data = [t for x in dvars(v) for t in terms_in(atoms[x], 'fld') if t.args[1] == 'data']
    req = NOT(cmp_terms('==', data[0], ZERO, True)) if data else TRUE
    ctx.ob('only-true-requests-disable', bool(data), site, 'the request is not looked at')
    agree(ctx, 'only-true-requests-disable', site, v, ite(req, leaf(ns[0]) if ns else leaf(ZERO), leaf(l)))
    return l


def expect(ctx, rule, R, N, loc, ty, table, what):
    """transition of a state variable in every callback; table: callback -> expected final value (default: unchanged)"""
    for f in R.all:
        I, r, st = R.runs[f]
        got = final(I, st, loc, ty)
        if ty is FLT:
            got = tnum(got)
        want = table[f](I, st) if f in table else (leaf(loc) if ty is not BOOL else bvar(loc))
        if ty is BOOL:
            got = tobool(got)
            for a, b in ((got, want), (want, got)):
                ctx.entail(rule, AND(st.g, a), b, at(f), '%s is %s' % (what, 'set' if a is got else 'cleared'))
        else:
            agree(ctx, rule, at(f), lib(got), want, st.g, what)


def predictors(ctx):
    """methods computing a ratio from a command"""
    fs = [f for f in ctx.p.repo_funcs() if f.cls == CLS and len(f.params) == 1 and f.tu.types[f.ret]['c'] == 'flt']
    if len(fs) != 1:
        raise AnchorMissing('prediction: %d functions' % len(fs))
    return fs


def predicted(I, st, e, d, O, obj):
    t = mk('predicted', I.fresh())
    I.emit('call', d['sqn'], st, e['l'], args=tuple(I.freeze(I.rv(a, st)) for a in e['a']), decl=d)
    return leaf(t)


def pred_of(I, R):
    return [e for e in I.events if e.kind == 'call' and e.name == R.predict.qn]


def stale(I, R, loc_stamp):
    n = now_terms(I)
    return cmp_terms('>', t_sub(n[0], loc_stamp), R.cfg['cloud_timeout'], False)


def transitions(ctx, N, R):
    tick = None
    for f in R.all:
        I = R.runs[f][0]
        if pred_of(I, R):
            tick = f
    if tick is None:
        raise AnchorMissing('prediction timer')
    R.tick = tick
    wd = [f for u, e in N.timers for f in [N.func(u)] if f is not tick]
    ctx.need('watchdog timers', len(wd))
    wd = wd[0]
    R.wd = wd
    I, r, st = R.runs[R.cloud]
    msg = lambda I, n: [t for t in terms_in(tnum(final(I, st, n)), 'fld') if t.args[1] == 'stamp']
    stamps = [l for l in written(I, st) if any(t.args[1] == 'stamp' and rootloc_par(t) is not None for v in (tnum(final(I, st, l)),) for t in terms_in(v, 'fld'))]
    It, rt, stt = R.runs[tick]
    used = [l for l in stamps if any(t is l for e in It.events for t in subterms(e.g) if isinstance(t, T))]
    if not stamps:
        ctx.ob('cloud-time', False, at(R.cloud), 'the time stamp of a cloud is not kept')
        return
    if len(used) != 1:
        raise AnchorMissing('time of the last cloud: %d' % len(used))
    stamp = used[0]
    # when a cloud counts
    th = [atoms[x] for x in dvars(OR(*[tobool(final(I, st, R.has_cloud, BOOL))])) if atoms[x].op == 'throws']
    empty = [atoms[x] for x in dvars(tobool(final(I, st, R.has_cloud, BOOL))) if '#size' in show(atoms[x])]
    ne = [NOT(TM.bvar(t)) for t in th]
    accepted = OR(AND(*ne) if ne else TRUE, TM.bvar(empty[0]) if empty else FALSE)
    ctx.ob('cloud-counts-when-transformed', bool(th), at(R.cloud), 'a cloud counts although its transform is missing')
    expect(ctx, 'cloud-availability', R, N, R.has_cloud, BOOL, {
        R.cloud: lambda I, st: OR(accepted, bvar(R.has_cloud)),
        tick: lambda I, st: AND(bvar(R.has_cloud), NOT(AND(waiting(I, R), stale(I, R, stamp))))}, 'availability of clouds')
    expect(ctx, 'cloud-time', R, N, stamp, FLT, {R.cloud: lambda I, st: ite(accepted, leaf(hdr(I, st, stamp)), leaf(stamp))}, 'time of the last cloud')
    expect(ctx, 'watchdog-state', R, N, R.expired, BOOL, {wd: lambda I, st: TRUE, R.reset: lambda I, st: FALSE}, 'expiry of the watchdog')
    # ratio and hold
    p = pred_of(It, R)
    ctx.ob('one-prediction', len(p) == 1, at(tick), '%d predictions' % len(p))
    pv = terms_in(final(It, stt, R.ratio), 'predicted')
    pv = list(dict.fromkeys(pv))
    if len(pv) != 1:
        ctx.ob('ratio-follows-prediction', False, at(tick), 'the ratio does not follow the prediction')
        return
    pv = pv[0]
    hold_off = [l for l in written(It, stt) if any(terms_in(t, 'now') for t in leaves(tnum(It.freeze(It.read1(l, stt)))))]
    if len(hold_off) != 1:
        ctx.ob('hold-after-prediction', False, at(tick), 'no end of the hold time is kept')
        return
    hold_off = hold_off[0]
    live = lambda I: AND(waiting(I, R), bvar(R.has_cloud))
    nt = now_terms(It)
    run = AND(live(It), NOT(stale(It, R, stamp)))
    low = cmp_terms('<', pv, R.ratio, False)
    expect(ctx, 'ratio-transitions', R, N, R.ratio, FLT, {
        tick: lambda I, st: ite(NOT(live(I)), leaf(R.ratio), ite(stale(I, R, stamp), leaf(ZERO), ite(low, leaf(pv), leaf(R.ratio)))),
        wd: lambda I, st: leaf(ZERO),
        R.param: lambda I, st: leaf(ONE),
        R.twist: lambda I, st: ite(AND(NOT(twist_off(I, R, ctx, N)), NOT(OR(NOT(bvar(R.has_cloud)), bvar(R.expired))), cmp_terms('>', now_terms(I)[0], hold_off, False)), leaf(ONE), leaf(R.ratio)),
    }, 'ratio')
    v = tnum(final(It, stt, hold_off))
    slow = cmp_terms('<', pv, ONE, False)
    cands = [ite(AND(run, slow), leaf(t_add(n, R.hold)), leaf(hold_off)) for n in nt]
    from rat import Rat, same
    ctx.ob('hold-after-prediction', any(same(Rat(), v, c, stt.g)[0] for c in cands), at(tick), 'end of the hold time: ' + show(v))
    for f in R.all:
        if f is not tick:
            I, r, st = R.runs[f]
            ctx.ob('hold-after-prediction', final(I, st, hold_off) is leaf(hold_off), at(f), 'the end of the hold time is changed')
    Ip, rp, sp = R.runs[R.param]
    hv = tnum(final(Ip, sp, R.hold))
    cfg = [t for t in terms_in(hv, 'fld') if t.args[1] == 'hold'][0]
    per = t_fdiv(ONE, mk('fld', cfg.args[0], 'freq'))
    agree(ctx, 'hold-at-least-one-prediction', at(R.param), hv, ite(cmp_terms('<', cfg, per, False), leaf(per), leaf(cfg)), cmp_terms('>', mk('fld', cfg.args[0], 'freq'), ZERO, False))
    # zero commands
    table = {wd: TRUE, tick: AND(live(It), stale(It, R, stamp))}
    for f in R.all:
        if f is R.twist:
            continue
        I, r, st = R.runs[f]
        ps = N.published(I, R.cmd)
        w = table.get(f, FALSE)
        ctx.entail('stop-published', w, OR(*[g for _, g, _ in ps]) if ps else FALSE, at(f), 'no stop is published')
        for e, g, v in ps:
            ctx.entail('stop-published', g, w, at(e), 'a command is published')
            for c in COMP + REST:
                agree(ctx, 'stop-is-zero', at(e), msgf(I, v, *c), leaf(ZERO), g, '.'.join(c))


def hdr(I, st, stamp):
    v = tnum(final(I, st, stamp))
    c = [t for t in leaves(v) if t is not stamp]
    c = [t for t in c if t.op == 'fld' and t.args[1] == 'stamp' and t.args[0].op == 'fld' and t.args[0].args[1] == 'header' and rootloc_par(t) is not None]
    return c[0] if c else mk('par', 'stamp of the message')


def waiting(I, R):
    """guard of the callback doing anything: flags other than the cloud's (a command was received)"""
    g = TRUE
    fl = set()
    for e in I.events:
        for x in dvars(e.g):
            a = atoms[x]
            if a.op == 'fld' and a.args[0].op == 'this' and a not in (R.has_cloud, R.expired):
                fl.add(a)
    own = [a for a in fl if a in R.started]
    for a in own:
        g = AND(g, bvar(a))
    return g


def twist_off(I, R, ctx, N):
    ws = written(*[R.runs[R.disable][k] for k in (0, 2)])
    return cmp_terms('<', t_sub(now_terms(I)[0], ws[0]), R.cfg['disable_timeout'], False)


def timers(ctx, N, R):
    """flags and timers as set up"""
    st = N.st
    I = N.I
    site = at(N.ctor)
    for l, want in ((R.has_cloud, FALSE), (R.expired, FALSE)):
        v = tobool(final(I, st, l, BOOL))
        ctx.ob('starts-stopped', v is want, site, '%s is initially %s' % (show(l), show(v)))
    tick, wd = R.tick, R.wd
    iv = [l for l in written(I, st) if terms_in(I.freeze(I.read1(l, st)), 'param', 'watchdog_interval')]
    iv = [l for l in iv if tnum(final(I, st, l)).leaf is not None and tnum(final(I, st, l)).leaf.op == 'param']
    ctx.need('watchdog interval', len(iv))
    iv = iv[0]
    for u, e in N.timers:
        f = N.func(u)
        per = tnum(e.args[0])
        if f is tick:
            agree(ctx, 'prediction-runs-at-its-rate', at(e), per, leaf(t_fdiv(ONE, R.cfg['freq'])), AND(e.g, cmp_terms('>', R.cfg['freq'], ZERO, False)))
            ctx.entail('prediction-runs-at-its-rate', TRUE, e.g, at(e), 'no prediction')
        else:
            agree(ctx, 'watchdog-runs-when-configured', at(e), per, leaf(iv), e.g)
            ctx.entail('watchdog-runs-when-configured', NOT(cmp_terms('==', iv, ZERO, False)), e.g, at(e), 'the watchdog is not started')
    Ir, r, sr = R.runs[R.reset]
    ps = [e for e in Ir.events if e.kind == 'call' and e.name == 'ros::Timer::setPeriod']
    ok = any(not sat(NOT(e.g)) and tnum(e.args[0]) is leaf(iv) and (len(e.args) < 2 or e.args[1] is TRUE) for e in ps)
    ok = ok or any(e.kind == 'call' and e.name == 'ros::Timer::start' and not sat(NOT(e.g)) for e in Ir.events) and any(e.kind == 'call' and e.name == 'ros::Timer::stop' for e in Ir.events)
    ctx.ob('reset-restarts-watchdog', ok, at(R.reset), 'a reset does not restart the watchdog')
