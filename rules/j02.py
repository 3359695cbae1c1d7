"""Joystick multiplexer: which input is passed on, and when the selection changes."""
from rosmodel import *
from numlib import subst
UNITS = ['joystick_interrupt/src/joystick_mux.cpp']
CLS = 'JoystickMux'
EXPLANATION = ('Callbacks are found by topic with the number bound to each input; the condition under which a message is passed on is evaluated for '
               'the selection after start-up, joystick message and timer.')
ASSUMPTIONS = ['callbacks run one at a time', 'the button index is not negative']


def check(ctx):
    N_ = RosNode(ctx, CLS)
    ctx.part(mux, N_)


def bound_args(N_, topic):
    """constants bound to the callback of a topic, by parameter position"""
    for e in N_.I.events:
        if e.kind == 'call' and e.name == 'ros::NodeHandle::subscribe' and strof(e.args[0]) == topic:
            for t in terms_in(e.args[2], 'call'):
                if t.args[0] in ('boost::bind', 'std::bind'):
                    return [a for a in t.args[3:]]
    return []


def mux(ctx, N_):
    fj, ft = N_.callback('joy'), [N_.callback('mux_input%d' % i) for i in (0, 1)]
    I0, r0, st0 = N_.run(ft[0])
    P = []
    pubs = lambda I: [e for e in I.events if e.kind == 'call' and e.name == 'ros::Publisher::publish']
    for k, f in enumerate(ft):
        I, r, st = (I0, r0, st0) if f is ft[0] else N_.run(f)
        mp = {}
        for i, a in enumerate(bound_args(N_, 'mux_input%d' % k)):
            t = a.leaf if isinstance(a, N) else a
            if t is not None and t.op == 'num':
                mp[par(f, i)] = t
        es = pubs(I)
        ctx.ob('passes-messages', bool(es), at(f), 'nothing is published')
        gs = [subst(e.g, mp) for e in es]
        P.append(OR(*gs) if gs else FALSE)
        for i in range(len(gs)):
            for j in range(i + 1, len(gs)):
                ctx.entail('passes-messages', AND(gs[i], gs[j]), FALSE, at(es[j]), 'a message is passed on twice')
        for e in es:
            same_msg(ctx, 'passes-messages', e, I, e.args[0], par_msg(f), e.g)
    sel = list({t for p in P for x in dvars(p) for t in subterms(atoms[x]) if t.op == 'fld' and t.args[0].op == 'this'})
    if len(sel) != 1:
        ctx.ob('selection-decides', False, at(ft[0]), 'passing a message on depends on ' + (', '.join(show(s) for s in sel) or 'nothing'))
        return
    sel = sel[0]
    for k, f in enumerate(ft):
        I, r, st = N_.run(f)
        v = I.freeze(I.typed(I.read1(sel, st), None)) if False else I.freeze(I.read1(sel, st))
        ctx.ob('selection-decides', all(t is sel for h, t in cases(v) if sat(AND(st.g, h))), at(f), 'an input changes the selection: ' + show(v))

    def sel_is(ctx, rule, where, I, st, table):
        """table: (condition, input or None for unchanged)"""
        v = I.freeze(I.read1(sel, st))
        for h, t in cases(v):
            for c, want in table:
                G = AND(st.g, h, c)
                if not sat(G):
                    continue
                if want is None:
                    ctx.ob(rule, t is sel, where, 'the selection becomes %s when %s' % (show(t), witness(G)))
                    continue
                if t is sel:
                    ctx.ob(rule, False, where, 'the selection stays when %s' % witness(G))
                    continue
                a = [subst(p, {sel: t}) for p in P]
                ctx.ob(rule, not sat(AND(G, NOT(a[want]))) and not sat(AND(G, a[1 - want])), where, 'the selection is %s when %s' % (show(t), witness(G)))
    # start-up
    sel_is(ctx, 'starts-with-first-input', at(N_.ctor), N_.I, N_.st, [(TRUE, 0)])
    # joystick
    I, r, st = N_.run(fj)
    msg = par_msg(fj)
    nb = size_of(mk('fld', msg, 'buttons'))
    b = N_.params.get('interrupt_button')
    to = N_.params.get('timeout')
    if b is None or to is None:
        raise AnchorMissing('parameters')
    pre = cmp_terms('>=', b, ZERO, True)
    has = AND(pre, cmp_terms('<', b, nb, True))
    pr = NOT(cmp_terms('==', mk('elem', mk('fld', msg, 'buttons'), b), ZERO, True))
    sel_is(ctx, 'button-selects', at(fj), I, st, [(AND(has, pr), 1), (AND(has, NOT(pr)), 0), (AND(pre, NOT(has)), None)])
    ns = [t for e in I.events if e.kind == 'call' and e.name.endswith('::now') and e.val is not None for t in leaves(e.val)]
    last = [l for l in written(I, st) if l is not sel]
    if len(last) != 1 or not ns:
        ctx.ob('time-of-joystick', False, at(fj), 'the time of a joystick message is not kept')
        return
    last = last[0]
    agree(ctx, 'time-of-joystick', at(fj), tnum(I.freeze(I.typed(I.read1(last, st), FLT))), ite(has, leaf(ns[0]), leaf(last)), pre)
    n0 = [t for e in N_.I.events if e.kind == 'call' and e.name.endswith('::now') and e.val is not None for t in leaves(e.val)]
    v0 = tnum(N_.I.freeze(N_.I.typed(N_.I.read1(last, N_.st), FLT)))
    ctx.ob('time-of-joystick', v0.leaf is not None and (v0.leaf in n0 or v0.leaf is ZERO), at(N_.ctor), 'the time of the last joystick message is initially ' + show(v0))
    # silence
    ctx.ob('silence-selects-first', len(N_.timers) >= 1, at(N_.ctor), 'no timer watches the joystick')
    for u, e in N_.timers:
        f = N_.func(u)
        I, r, st = N_.run(f)
        ns = [t for e_ in I.events if e_.kind == 'call' and e_.name.endswith('::now') and e_.val is not None for t in leaves(e_.val)]
        if not ns:
            ctx.ob('silence-selects-first', False, at(f), 'the age of the joystick message is not looked at')
            continue
        old = cmp_terms('>', t_sub(ns[0], last), to, False)
        sel_is(ctx, 'silence-selects-first', at(f), I, st, [(old, 0), (NOT(old), None)])
        ctx.ob('silence-selects-first', last not in written(I, st), at(f), 'the timer changes the time of the joystick message')
        per = tnum(e.args[0])
        ctx.ob('silence-selects-first', per.leaf is not None and per.leaf.op == 'num' and per.leaf.args[0] > 0 or per.leaf is None or per.leaf.op != 'num', at(e), 'timer period ' + show(per))
