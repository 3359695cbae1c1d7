"""Joystick interrupt: which command reaches the output, and what an interrupt command is."""
from rosmodel import *
UNITS = ['joystick_interrupt/src/joystick_interrupt.cpp']
CLS = 'JoystickInterrupt'
EXPLANATION = ('Callbacks and publishers are found by topic and parameters by name; every callback is summarised over an arbitrary state '
               'and the published values, their conditions and the state transitions are compared with the reference.')
ASSUMPTIONS = ['callbacks run one at a time', 'wall clock readings exceed the timeout', 'the interrupt button index is not negative (checked at start-up)']
VEL = (('linear', 'x', 'linear_vel', 'linear_axis', 'linear_high_speed_ratio'), ('linear', 'y', 'linear_y_vel', 'linear_y_axis', 'linear_high_speed_ratio'),
       ('angular', 'z', 'angular_vel', 'angular_axis', 'angular_high_speed_ratio'))
REST = (('linear', 'z'), ('angular', 'x'), ('angular', 'y'))


def check(ctx):
    N_ = RosNode(ctx, CLS)
    R = Roles(ctx, N_)
    ctx.part(joy, N_, R)
    ctx.part(command, N_, R)
    ctx.part(setup, N_, R)


class Roles(object):
    def __init__(self, ctx, N_):
        self.out, self.status = N_.publisher('cmd_vel'), N_.publisher('interrupt_status')
        self.fj, self.fc = N_.callback('joy'), N_.callback('cmd_vel_input')
        self.joy, self.cmd = N_.run(self.fj), N_.run(self.fc)
        self.par = {}
        for n in ('timeout', 'interrupt_button', 'high_speed_button') + tuple(x for v in VEL for x in (v[2], v[3], v[3] + '2', v[4])):
            if n not in N_.params:
                raise AnchorMissing('parameter %s' % n)
            self.par[n] = N_.params[n]
        I, r, st = self.joy
        ws = written(I, st)
        if len(ws) != 1:
            raise AnchorMissing('state of the joystick callback: %d locations' % len(ws))
        self.last = ws[0]
        I, r, st = self.cmd
        ws = written(I, st)
        if not ws:
            ctx.ob('keeps-command', False, at(self.fc), 'a command is not kept')
        elif len(ws) != 1:
            raise AnchorMissing('state of the command callback: %d locations' % len(ws))
        self.kept = ws[0] if ws else mk('nothing')


def one_of(I):
    return [t for e in I.events if e.kind == 'call' and e.name.endswith('::now') and e.val is not None for t in leaves(e.val)]


def joy(ctx, N_, R):
    I, r, st = R.joy
    site = at(R.fj)
    msg = par_msg(R.fj)
    nb = size_of(mk('fld', msg, 'buttons'))
    button = lambda i: NOT(cmp_terms('==', mk('elem', mk('fld', msg, 'buttons'), i), ZERO, True))
    b = R.par['interrupt_button']
    here = AND(cmp_terms('>=', b, ZERO, True), cmp_terms('<', b, nb, True))
    pressed = AND(here, button(b))
    pre = cmp_terms('>=', b, ZERO, True)
    ns = one_of(I)
    ctx.ob('interrupt-time', bool(ns), site, 'the time of the interrupt is not taken')
    got = tnum(I.freeze(I.typed(I.read1(R.last, st), FLT)))
    if ns:
        agree(ctx, 'interrupt-time', site, got, ite(pressed, leaf(ns[0]), leaf(ZERO)), pre)
    active = NOT(cmp_terms('==', R.last, ZERO, False))
    back = AND(here, NOT(button(b)), active)
    ps = N_.published(I, R.out)
    gs = OR(*[g for _, g, _ in ps]) if ps else FALSE
    ctx.entail('one-command-per-message', AND(pre, gs), OR(pressed, back), site, 'a command is published')
    ctx.entail('one-command-per-message', AND(pre, OR(pressed, back)), gs, site, 'no command is published')
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            ctx.entail('one-command-per-message', AND(ps[i][1], ps[j][1]), FALSE, at(ps[j][0]), 'two commands are published')
    for e, g, v in ps:
        if sat(AND(g, pre, back)):
            same_msg(ctx, 'release-restores-command', e, I, v, R.kept, AND(g, pre, back))
        G = AND(g, pre, pressed)
        if not sat(G):
            continue
        h = R.par['high_speed_button']
        fast = AND(cmp_terms('>=', h, ZERO, True), cmp_terms('<', h, nb, True), button(h))
        for a, c, vel, axis, ratio in VEL:
            x = pick(msg, R.par[axis], R.par[axis + '2'])
            w = lift1c(lambda t: t_mul(t, R.par[vel]), ite(fast, lift1c(lambda t: t_mul(t, R.par[ratio]), x), x))
            agree(ctx, 'interrupt-command', at(e), lib(msgf(I, v, a, c)), w, G, '%s.%s' % (a, c))
        for a, c in REST:
            agree(ctx, 'interrupt-command', at(e), msgf(I, v, a, c), leaf(ZERO), G, '%s.%s' % (a, c))
    ctx.ob('keeps-command', not any(rootloc(l).op == 'this' and l is R.kept for l in written(I, st)), site, 'the last command is overwritten')


def axis_val(msg, i):
    axes = mk('fld', msg, 'axes')
    n = size_of(axes)
    return ite(OR(cmp_terms('<', i, ZERO, True), cmp_terms('>=', i, n, True)), leaf(ZERO), leaf(mk('elem', axes, i)))


def pick(msg, i, j):
    a, b = axis_val(msg, i), axis_val(msg, j)
    return lift2(lambda x, y: ite(gt_abs(y, x), leaf(y), leaf(x)), a, b)


def gt_abs(y, x):
    ay, ax = absval(y), absval(x)
    return tobool(lift2(lambda p, q: cmp_terms('>', p, q, False), ay, ax))


def command(ctx, N_, R):
    I, r, st = R.cmd
    site = at(R.fc)
    msg = par_msg(R.fc)
    ns = one_of(I)
    if not ns:
        ctx.ob('forwarding-condition', False, site, 'the age of the interrupt is not looked at')
        return
    old = cmp_terms('>', t_sub(ns[0], R.last), R.par['timeout'], False)
    sims = {atoms[x] for e in I.events for x in list(dvars(e.g)) if 'isSimTime' in show(atoms[x])}
    sim = TM.bvar(next(iter(sims))) if sims else FALSE
    none = cmp_terms('==', R.last, ZERO, False)
    pre = OR(sim, NOT(none), old) if sims else OR(NOT(none), old)
    fwd = OR(old, AND(sim, none))
    ctx.ob('forwarding-condition', bool(sims), site, 'with simulated time starting at zero an interrupt that never happened blocks commands')
    ps = N_.published(I, R.out)
    g = OR(*[x for _, x, _ in ps]) if ps else FALSE
    ctx.entail('forwarding-condition', AND(pre, g), fwd, site, 'a command passes during an interrupt')
    ctx.entail('forwarding-condition', AND(pre, fwd), g, site, 'a command is held back')
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            ctx.entail('forwarding-condition', AND(ps[i][1], ps[j][1]), FALSE, at(ps[j][0]), 'two commands are published')
    for e, x, v in ps:
        same_msg(ctx, 'forwards-input', e, I, v, msg, AND(pre, x))
    ss = N_.published(I, R.status)
    ctx.entail('status-of-every-command', TRUE, OR(*[x for _, x, _ in ss]) if ss else FALSE, site, 'no status')
    for e, x, v in ss:
        d = tobool(msgf(I, v, 'data', ty=None))
        ctx.entail('status-of-every-command', AND(pre, x, d), fwd, at(e), 'the status says the command passed')
        ctx.entail('status-of-every-command', AND(pre, x, fwd), d, at(e), 'the status says the command was held back')
    kept = I.read1(R.kept, st)
    same_msg(ctx, 'keeps-command', None, I, kept, msg, st.g, site)
    ctx.ob('interrupt-time', all(l is not R.last for l in written(I, st)), site, 'the time of the interrupt changes')


def setup(ctx, N_, R):
    I, st = N_.I, N_.st
    v = tnum(I.freeze(I.typed(I.read1(R.last, st), FLT)))
    ctx.ob('starts-without-interrupt', v is leaf(ZERO), at(N_.ctor), 'the time of the interrupt is initially ' + show(v))
