"""The planning cycle: what is published, which goals end, and what a plan is made from."""
from planlib import *
from models import GRID
from numlib import PI
EXPLANATION = ('A planning cycle is summarised over an arbitrary state of the node, with the preparation of the distance map and the making of a plan as steps with '
               'arbitrary outcome; the making of a plan is summarised with the start poses, the search and the occupancy as arbitrary outcomes.')
ASSUMPTIONS = ['callbacks run one at a time', 'an action server runs from the acceptance of a goal until it is told the end', 'real arithmetic', 'yaw angles are in [-pi, pi]']
ERR, STA = 'error', 'status'
PREP = ('cost_estim_cache_created_', 'is_start_occupied_', 'cnt_stuck_', 'escape_status_', 'goal_', 'goal_raw_')


def check(ctx):
    P = Plan(ctx)
    ctx.part(cycle, P)
    ctx.part(outputs, P)
    ctx.part(on_update, P)
    ctx.part(on_timer, P)
    ctx.part(robot_pose, P)
    ctx.part(main_loop, P)
    ctx.part(waiting, P)
    ctx.part(jumps, P)


def num(k):
    return mk('num', k)


def lt(a, b):
    return tobool(cmpv('<', a, b))


def iff(g, a, b):
    return OR(AND(g, a), AND(NOT(g), b))


def cycle(ctx, P):
    f = P.fn('planPath')
    err, sta = mk('fld', P.f('status_'), ERR), mk('fld', P.f('status_'), STA)
    Q = [('createCostEstimCache', PREP, ()), ('makePlan', ('escape_status_', 'goal_', 'goal_raw_', err, sta, 'goal_tolerant_', 'has_hysteresis_map_'), (2,)),
         'publishEmptyPath', 'publishFinishPath', 'publishPath', 'publishCurrentGoal']
    I, r, st = P.run(f, quiet=Q, values=['getSwitchIndex'])
    site = f.name
    now = par(f, 0)
    b0 = P.b0
    # distance map when it is missing
    prep = by(I, 'createCostEstimCache')
    need = AND(b0('has_map_'), NOT(b0('cost_estim_cache_created_')), b0('has_goal_'))
    exactly(ctx, 'missing-distance-map', prep, need, site, 'preparation of the distance map')
    once(ctx, 'missing-distance-map', prep, site, 'preparation of the distance map')
    if len(prep) != 1:
        return
    k = cases(prep[0].val)[0][1].args[1]

    def after_prep(name):
        return mk('after', k, 'createCostEstimCache', P.f(name))
    created = OR(b0('cost_estim_cache_created_'), AND(need, tobool(leaf(after_prep('cost_estim_cache_created_')))))
    created = iff(need, tobool(leaf(after_prep('cost_estim_cache_created_'))), b0('cost_estim_cache_created_'))
    occupied = iff(need, tobool(leaf(after_prep('is_start_occupied_'))), b0('is_start_occupied_'))
    stuck = IN.ite(need, leaf(after_prep('cnt_stuck_')), leaf(P.f('cnt_stuck_')))
    esc0 = IN.ite(need, leaf(after_prep('escape_status_')), leaf(P.f('escape_status_')))
    wd, last = leaf(P.f('costmap_watchdog_')), leaf(P.f('last_costmap_'))
    delay = lift2(lambda a, b: leaf(IN.t_add(a, IN.t_neg(b))), leaf(now), last)
    stale = AND(lt(leaf(num(0)), wd), lt(wd, delay))
    ready = AND(b0('has_map_'), b0('has_goal_'), b0('has_start_'), NOT(stale))
    fin = IN.eq_leaf(sta, num(FINISHING))
    tries = leaf(P.f('max_retry_num_'))
    giving = AND(ready, NOT(fin), NOT(IN.eq_leaf(P.f('max_retry_num_'), num(-1))), int_lt(tries, stuck))
    skip = AND(ready, NOT(fin), NOT(giving), NOT(created))
    plan = AND(ready, NOT(fin), NOT(giving), created)
    # close to the orientation of the goal
    near = near_goal(P, need, after_prep)
    done = AND(ready, fin, near)
    # plans
    mp, pp = by(I, 'makePlan'), by(I, 'publishPath')
    for es, what in ((mp, 'plan'), (pp, 'publication of the plan')):
        exactly(ctx, 'plans-when-ready', es, plan, site, what)
        once(ctx, 'plans-when-ready', es, site, what)
    goal = IN.ite(need, leaf(after_prep('goal_')), leaf(P.f('goal_')))
    for e in mp:
        same_val(ctx, 'plan-of-current-poses', e.args[0], leaf(mk('fld', P.f('start_'), 'pose')), at(e), 'start', e.g)
        same_val(ctx, 'plan-of-current-poses', e.args[1], lift1(lambda t: leaf(mk('fld', t, 'pose')), goal), at(e), 'goal', e.g)
        t = then(I, e)
        same_val(ctx, 'plan-of-current-poses', val(I, t, err), leaf(num(GOING_WELL)), at(e), 'error before planning', e.g)
        same_val(ctx, 'plan-header', msgf(I, e.args[2], 'header', 'stamp'), leaf(now), at(e), 'time of the path', e.g)
        same_val(ctx, 'plan-header', msgf(I, e.args[2], 'header', 'frame_id'), leaf(reduce(P.f('map_header_'), 'frame_id')), at(e), 'frame of the path', e.g)
        ctx.entail('plan-header', e.g, tobool(cmpv('<=', msgf(I, e.args[2], 'poses', '#size'), leaf(num(0)), True)), at(e), 'the path has poses before planning')
        same_bool(ctx, 'plan-of-current-poses', e.args[3], TRUE, at(e), 'use of the previous path', e.g)
    km = [cases(e.val)[0][1].args[1] for e in mp]
    if len(km) != 1:
        return
    made = mk('after', km[0], 'makePlan', 2)
    for e in pp:
        same_val(ctx, 'publishes-the-plan', e.args[0], leaf(made), at(e), 'published path', e.g)

    def after_plan(l):
        return mk('after', km[0], 'makePlan', l)
    # stop
    empty = by(I, 'publishEmptyPath')
    exactly(ctx, 'stops-otherwise', empty, OR(stale, giving, skip, NOT(OR(ready, b0('has_goal_')))), site, 'empty path')
    exactly(ctx, 'finishing-path', by(I, 'publishFinishPath'), AND(ready, fin, NOT(near)), site, 'path to the final orientation')
    # ends
    for o in P.acts:
        exactly(ctx, 'reached-goal-succeeds', ended(I.events, o, 'succeeded'), AND(done, P.run0(o)), site, 'success of %s' % show(o))
        exactly(ctx, 'given-up-goal-aborts', ended(I.events, o, 'aborted'), AND(giving, P.run0(o)), site, 'abort of %s' % show(o))
        exactly(ctx, 'ends-only-then', ended(I.events, o), AND(OR(done, giving), P.run0(o)), site, 'end of %s' % show(o))
    ends_only_running(ctx, I, 'ends-only-running')
    same_bool(ctx, 'goal-dropped', bval(I, st, P.f('has_goal_')), AND(b0('has_goal_'), NOT(OR(done, giving))), site, 'presence of a goal')
    s1, e1 = val(I, st, sta), val(I, st, err)
    same_val(ctx, 'status-of-cycle', s1, leaf(num(DONE)), site, 'status', OR(done, giving))
    same_val(ctx, 'status-of-cycle', s1, leaf(after_plan(sta)), site, 'status', plan)
    same_val(ctx, 'status-of-cycle', s1, leaf(sta), site, 'status', NOT(OR(done, giving, plan)))
    same_val(ctx, 'error-of-cycle', e1, leaf(num(PATH_NOT_FOUND)), site, 'error', giving)
    same_val(ctx, 'error-of-cycle', e1, leaf(num(IN_ROCK)), site, 'error', AND(skip, occupied))
    same_val(ctx, 'error-of-cycle', e1, leaf(num(PATH_NOT_FOUND)), site, 'error', AND(skip, NOT(occupied)))
    esc1 = leaf(after_plan(P.f('escape_status_')))
    eq = lambda v, k: lift_eq(v, k)
    dom = AND(OR(*[eq(esc0, i) for i in range(3)]), OR(*[eq(esc1, i) for i in range(3)]))
    away = AND(plan, dom, OR(NOT(eq(esc0, 0)), NOT(eq(esc1, 0))))
    worse = OR(eq(esc0, 2), eq(esc1, 2))
    same_val(ctx, 'error-of-cycle', e1, leaf(num(PATH_NOT_FOUND)), site, 'error while escaping without improvement', AND(away, worse))
    same_val(ctx, 'error-of-cycle', e1, leaf(num(GOING_WELL)), site, 'error while escaping', AND(away, NOT(worse)))
    same_val(ctx, 'error-of-cycle', e1, leaf(after_plan(err)), site, 'error', AND(plan, dom, NOT(away)))
    idle = AND(NOT(b0('has_goal_')), NOT(b0('retain_last_error_status_')))
    same_val(ctx, 'error-of-cycle', e1, leaf(num(GOING_WELL)), site, 'error without goal', idle)
    same_val(ctx, 'error-of-cycle', e1, leaf(num(DATA_MISSING)), site, 'error with an old costmap', AND(stale, NOT(idle)))
    same_val(ctx, 'error-of-cycle', e1, leaf(err), site, 'error', AND(NOT(stale), NOT(idle), NOT(AND(ready, NOT(fin)))))
    # status message
    pub = P.N.published(I, P.f('pub_status_'))
    g = OR(*[h for e, h, v in pub]) if pub else FALSE
    ctx.entail('status-published', NOT(giving), g, site, 'no status is published')
    for i, (e, h, v) in enumerate(pub):
        ctx.ob('status-published', not e.loops, at(e), 'status is published repeatedly')
        for e2, h2, v2 in pub[:i]:
            ctx.entail('status-published', AND(h, h2), FALSE, at(e), 'status is published twice')
        h = AND(h, NOT(giving))
        same_val(ctx, 'status-published', msgf(I, v, 'status'), s1, at(e), 'published status', h)
        same_val(ctx, 'status-published', msgf(I, v, 'error'), e1, at(e), 'published error', h)
        same_val(ctx, 'status-published', msgf(I, v, 'header', 'stamp'), leaf(now), at(e), 'time of the status', h)
    ctx.entail('goal-published', NOT(giving), g_of(by(I, 'publishCurrentGoal')), site, 'the current goal is not published')
    # feedback
    for o in P.acts:
        fb = [e for e in I.events if e.kind == 'call' and e.name.endswith('::publishFeedback') and all(t is o for h, t in cases(e.obj))]
        exactly(ctx, 'feedback', fb, AND(ready, P.run0(o)), site, 'feedback of %s' % show(o))
        for e in fb:
            for n in ('header', 'pose'):
                same_val(ctx, 'feedback', msgf(I, e.args[0], 'base_position', n), leaf(mk('fld', P.f('start_'), n)), at(e), n + ' of the position', e.g)
    # switch back
    swi = leaf(mk('call', 'getSwitchIndex', made))
    sw = AND(plan, lt(leaf(num(0)), leaf(P.f('sw_wait_'))), NOT(b0('keep_a_part_of_previous_path_')), NOT(int_lt(swi, leaf(num(0)))))
    same_bool(ctx, 'waits-at-switchback', bval(I, st, P.f('is_path_switchback_')), iff(ready, sw, b0('is_path_switchback_')), site, 'switch back of the path')
    want = mk('elem', mk('fld', made, 'poses'), cases(swi)[0][1])
    same_val(ctx, 'waits-at-switchback', I.freeze(I.read1(P.f('sw_pos_'), st)), leaf(want), site, 'pose of the switch back', sw)


def int_lt(a, b):
    return tobool(cmpv('<', a, b, True))


def lift_eq(v, k):
    return OR(*[AND(g, IN.eq_leaf(t, num(k))) for g, t in cases(v)])


def near_goal(P, need, after_prep):
    yaw = lambda t: mk('call', 'tf2::getYaw', reduce(t, 'pose', 'orientation'))
    ys = leaf(yaw(P.f('start_')))
    yg = [IN.ite(need, leaf(yaw(after_prep(n))), leaf(yaw(P.f(n)))) for n in ('goal_', 'goal_raw_')]
    g = IN.ite(P.b0('force_goal_orientation_'), yg[1], yg[0])
    d = lift2(lambda a, b: leaf(IN.t_add(a, IN.t_neg(b))), ys, g)
    pi = leaf(num(PI))
    two = num(2 * PI)
    over, under = lt(pi, d), lt(d, lift1(lambda t: leaf(IN.t_neg(t)), pi))
    w = IN.ite(over, lift1(lambda t: leaf(IN.t_add(t, IN.t_neg(two))), d), IN.ite(under, lift1(lambda t: leaf(IN.t_add(t, two)), d), d))
    tol = IN.ite(P.run0(P.actT), leaf(reduce(mk('deref', P.f('goal_tolerant_')), 'goal_tolerance_ang_finish')), leaf(P.f('goal_tolerance_ang_finish_')))
    n = lift1(lambda t: leaf(IN.t_neg(t)), w)
    return AND(lt(w, tol), lt(n, tol))


def reduce(o, *p):
    for x in p:
        o = mk('fld', o, x)
    return o


def outputs(ctx, P):
    # stop: a path without poses
    f = P.fn('publishEmptyPath')
    I, r, st = P.run(f, quiet=['publishPath'])
    es = by(I, 'publishPath')
    exactly(ctx, 'empty-path', es, TRUE, f.name, 'publication of a path')
    once(ctx, 'empty-path', es, f.name, 'publication of a path')
    for e in es:
        ctx.entail('empty-path', e.g, tobool(cmpv('<=', msgf(I, e.args[0], 'poses', '#size'), leaf(num(0)), True)), at(e), 'the path that stops the robot has poses')
        same_val(ctx, 'empty-path', msgf(I, e.args[0], 'header', 'frame_id'), leaf(P.f('robot_frame_')), at(e), 'frame', e.g)
    # final orientation: a single pose
    f = P.fn('publishFinishPath')
    I, r, st = P.run(f, quiet=['publishPath'])
    es = by(I, 'publishPath')
    exactly(ctx, 'final-pose', es, TRUE, f.name, 'publication of a path')
    once(ctx, 'final-pose', es, f.name, 'publication of a path')
    for e in es:
        n = msgf(I, e.args[0], 'poses', '#size')
        ctx.ob('final-pose', all(t is num(1) for g, t in cases(n)), at(e), '%s poses' % show(n))
        want = IN.ite(P.b0('force_goal_orientation_'), leaf(reduce(P.f('goal_raw_'), 'pose')), leaf(reduce(P.f('goal_'), 'pose')))
        ps = msg_elem(I, e.args[0], 'poses', 0, 'pose')
        same_val(ctx, 'final-pose', ps, want, at(e), 'pose', e.g)
        same_val(ctx, 'final-pose', msgf(I, e.args[0], 'header', 'frame_id'), leaf(reduce(P.f('map_header_'), 'frame_id')), at(e), 'frame', e.g)
    # every path
    f = P.fn('publishPath')
    I, r, st = P.run(f)
    path = par(f, 0)
    for n, want, g in (('path_velocity', mk('call', 'trajectory_tracker_msgs::toPathWithVelocity', path, mk('nan')), P.b0('use_path_with_velocity_')),
                       ('path', path, NOT(P.b0('use_path_with_velocity_')))):
        pub = P.N.published(I, P.N.publisher(n))
        exactly(ctx, 'path-published', OR(*[h for e, h, v in pub]) if pub else FALSE, g, f.name, 'publication on %s' % n)
        for e, h, v in pub:
            same_val(ctx, 'path-published', v, leaf(want), at(e), 'published path', h)
    same_val(ctx, 'path-remembered', I.freeze(I.read1(P.f('previous_path_'), st)), leaf(path), f.name, 'kept path')


def msg_elem(I, v, *p):
    """field of an element of a message value"""
    for x in p:
        v = I.getelem(v, leaf(num(x))) if isinstance(x, int) else I.getfld(v, x)
    return I.freeze(v)


def on_update(ctx, P):
    f = P.N.callback('costmap_update')
    I, r, st = P.run(f, quiet=['updateStart', ('applyCostmapUpdate', ('last_costmap_',), ()), 'planPath'])
    site = f.name
    up, ap, pl = by(I, 'updateStart'), by(I, 'applyCostmapUpdate'), by(I, 'planPath')
    trig = AND(P.b0('has_map_'), P.b0('trigger_plan_by_costmap_update_'))
    exactly(ctx, 'update-applied', ap, P.b0('has_map_'), site, 'application of the update')
    exactly(ctx, 'plans-on-update', pl, trig, site, 'planning')
    ctx.entail('plans-on-update', trig, g_of(up), site, 'the robot pose is not updated')
    for e in ap:
        same_val(ctx, 'update-applied', e.args[0], leaf(par(f, 0)), at(e), 'update', e.g)
    for es, w in ((ap, 'application of the update'), (pl, 'planning')):
        once(ctx, 'plans-on-update', es, site, w)
    for e in pl:
        late = [x for x in up + ap if x.seq > e.seq and sat(AND(x.g, e.g))]
        ctx.ob('plans-on-update', not late, at(e), 'planning before the update is applied')
        for x in ap:
            for g, t in cases(e.args[0]):
                ctx.ob('plans-on-update', not sat(AND(g, e.g, x.g)) or t is mk('after', cases(x.val)[0][1].args[1], 'applyCostmapUpdate', P.f('last_costmap_')), at(e),
                       'planned for the time %s' % show(t)[:200])
    for x in up:
        for y in ap:
            ctx.ob('plans-on-update', x.seq < y.seq or not sat(AND(x.g, y.g)), at(x), 'the robot pose is updated after the costmap')
    watchdog(ctx, P, I, st, AND(trig, lt(leaf(num(0)), leaf(P.f('costmap_watchdog_')))), site)


def watchdog(ctx, P, I, st, g, site):
    ts = [e for e in I.events if e.kind == 'call' and e.name == 'ros::NodeHandle::createTimer']
    exactly(ctx, 'watchdog-restarted', ts, g, site, 'restart of the watchdog')
    for e in ts:
        same_val(ctx, 'watchdog-restarted', e.args[0], leaf(P.f('costmap_watchdog_')), at(e), 'period', e.g)
        fs = {P.N.func(u).name for a in e.args for u in funcs_in(a)}
        ctx.ob('watchdog-restarted', fs == {P.fn('cbNoMapUpdateTimer').name}, at(e), 'calls %s' % fs)
    v = I.freeze(I.read1(P.f('no_map_update_timer_'), st))
    for h, t in cases(v):
        ctx.ob('watchdog-restarted', not sat(AND(g, h)) or t.op == 'call' and t.args[0] == 'ros::NodeHandle::createTimer', site, 'the new timer is not kept')


def on_timer(ctx, P):
    f = P.fn('cbNoMapUpdateTimer')
    I, r, st = P.run(f, quiet=['planPath'])
    pl = by(I, 'planPath')
    exactly(ctx, 'plans-without-updates', pl, TRUE, f.name, 'planning')
    for e in pl:
        same_val(ctx, 'plans-without-updates', e.args[0], leaf(reduce(par(f, 0), 'current_real')), at(e), 'time of planning', e.g)
    watchdog(ctx, P, I, st, TRUE, f.name)


def robot_pose(ctx, P):
    f = P.fn('updateStart')
    I, r, st = P.run(f)
    look = [e for e in I.events if e.kind == 'call' and e.name.endswith('::lookupTransform')]
    ctx.ob('robot-pose', len(look) == 1, f.name, '%d lookups' % len(look))
    for e in look:
        same_val(ctx, 'robot-pose', e.args[0], leaf(reduce(P.f('map_header_'), 'frame_id')), at(e), 'target frame')
        same_val(ctx, 'robot-pose', e.args[1], leaf(P.f('robot_frame_')), at(e), 'source frame')
    th = throws_in(I)
    same_bool(ctx, 'robot-pose', bval(I, st, P.f('has_start_')), NOT(th), f.name, 'robot pose counts as known')
    v = I.freeze(I.read1(P.f('start_'), st))
    for h, t in cases(v):
        if t is P.f('start_'):
            ctx.entail('robot-pose', h, th, f.name, 'the robot pose is not taken')
        else:
            ctx.entail('robot-pose', h, NOT(th), f.name, 'the robot pose is lost')


def throws_in(I):
    g = FALSE
    for e in I.events:
        if e.kind == 'catch':
            g = OR(g, e.g)
    return g


def loops_of(I):
    ls = []
    for e in I.events:
        for l in e.loops:
            if l not in ls:
                ls.append(l)
    return ls


def main_loop(ctx, P):
    f = P.fn('spin')
    J = own('detectJump')
    I, r, st = P.run(f, quiet=['waitUntil', ('planPath', ('is_path_switchback_',), ())], hooks={'planner_cspace::planner_3d::JumpDetector::detectJump': J})
    trig = P.b0('trigger_plan_by_costmap_update_')
    wait, pl = by(I, 'waitUntil'), by(I, 'planPath')
    ls = loops_of(I)
    ctx.ob('main-loop', len(ls) == 1 and all(e.loops == (ls[0],) or list(e.loops) == [ls[0]] for e in wait + pl), f.name, 'planning outside of the main loop')
    if len(ls) != 1 or not pl or not wait:
        ctx.ob('main-loop', bool(pl and wait), f.name, 'no planning in the main loop')
        return
    L = ls[0]
    body = [e.g for e in I.events if e.kind == 'call' and e.name == 'ros::ok' and e.loops]
    ok = L.cond if isinstance(L.cond, N) else TRUE
    run = AND(ok, NOT(trig))
    for es, w in ((wait, 'waiting'), (pl, 'planning')):
        exactly(ctx, 'main-loop', es, run, f.name, w)
    for e in pl:
        ctx.ob('main-loop', all(x.seq < e.seq for x in wait), at(e), 'planning before waiting')
        ctx.ob('main-loop', all(t.op == 'now' for g, t in cases(e.args[0])), at(e), 'planned for the time %s' % show(e.args[0])[:200])
    now = cases(pl[0].args[0])[0][1]
    k = cases(pl[0].val)[0][1].args[1]
    sw = tobool(leaf(mk('after', k, 'planPath', P.f('is_path_switchback_'))))
    for g, t in cases(wait[0].args[0]):
        loc = t.args[1] if t.op == 'phi' else None
        ctx.ob('next-cycle', loc is not None, at(wait[0]), 'waits for %s' % show(t)[:200])
        if loc is None:
            continue
        nx = I.freeze(I.read1(loc, L.next))
        plus = lambda d: lift2(lambda a, b: leaf(IN.t_add(a, b)), leaf(now), d)
        inv = lift1(lambda t: leaf(IN.t_fdiv(num(1), t)), leaf(P.f('freq_')))
        same_val(ctx, 'next-cycle', nx, plus(leaf(P.f('sw_wait_'))), f.name, 'next cycle at a switch back', AND(run, sw))
        agree_real(ctx, 'next-cycle', nx, P, now, AND(run, NOT(sw)), f.name)
    spun = [e for e in I.events if e.kind == 'call' and e.name == 'ros::spinOnce']
    ctx.entail('main-loop', AND(ok, trig), g_of(spun), f.name, 'messages are not handled')
    jump_clears(ctx, P, I, f, AND(ok, trig))


def agree_real(ctx, rule, nx, P, now, pre, site):
    """now + 1/freq"""
    for g, t in cases(nx):
        if sat(AND(g, pre)):
            d = IN.t_add(t, IN.t_neg(now))
            x = IN.t_mul(d, P.f('freq_'))
            ctx.ob(rule, x is num(1), site, 'next cycle after %s' % show(d)[:200])


def jump_clears(ctx, P, I, f, pre):
    ds = by(I, 'detectJump')
    cl = [e for e in I.events if e.kind in ('call', 'clear') and e.name.endswith('clear') and e.obj is not None and
          all(t is mk('deref', P.f('bbf_costmap_')) for g, t in cases(e.obj))]
    ctx.entail('jump-forgets', pre, g_of(ds), f.name, 'jumps are not looked for')
    if ds:
        exactly(ctx, 'jump-forgets', cl, OR(*[AND(d.g, tobool(d.val)) for d in ds]), f.name, 'clearing of the remembered costmap')


def waiting(ctx, P):
    f = P.fn('waitUntil')
    h = {'planner_cspace::planner_3d::JumpDetector::detectJump': own('detectJump'), 'ros::spinOnce': own('spinOnce', ('last_costmap_',))}
    I, r, st = P.run(f, quiet=['updateStart'], values=['metric2Grid'], hooks=h, container_index=GRID)
    ls = loops_of(I)
    outer = [l for l in ls if any(e.loops and e.loops[0] is l for e in I.events) and not any(l in e.loops[1:] for e in I.events)]
    site = f.name
    if len(outer) != 1:
        ctx.ob('waits', False, site, '%d loops' % len(outer))
        return
    L = outer[0]
    ok = L.cond
    spin, upd, jump = by(I, 'spinOnce'), by(I, 'updateStart'), by(I, 'detectJump')
    ctx.entail('waits', ok, g_of(spin), site, 'messages are not handled')
    map_ = bval(I, L.head, P.f('has_map_'))
    exactly(ctx, 'waits', upd, AND(ok, map_), site, 'update of the robot pose')
    if len(spin) != 1 or len(jump) != 1:
        ctx.ob('waits', False, site, 'messages are handled %d times, jumps looked for %d times' % (len(spin), len(jump)))
        return
    go = L.next.g
    j = tobool(jump[0].val)
    exactly(ctx, 'waits', jump, AND(ok, map_), site, 'look for a jump')
    ctx.entail('waits', AND(go, map_, j), FALSE, site, 'goes on waiting after a jump')
    jump_clears(ctx, P, I, f, AND(ok, map_))
    # time
    end = par(f, 0)
    nows = [t for e in I.events if e.kind == 'call' and e.name == 'ros::Time::now' for t in [cases(e.val)[0][1]]]
    ctx.ob('waits', len(nows) == 1, site, '%d readings of the time' % len(nows))
    late = OR(*[lt(leaf(end), leaf(n)) for n in nows]) if nows else TRUE
    ctx.entail('waits', AND(go, late), FALSE, site, 'goes on waiting after the time')
    # switch back
    S, W = P.f('start_'), P.f('sw_pos_')
    arr = [e for e in I.events if e.kind == 'return' and sat(e.g)]
    swb = bval(I, L.head, P.f('is_path_switchback_'))
    near = arrived(I, P, S, W)
    ctx.entail('waits', AND(go, map_, swb, near), FALSE, site, 'goes on waiting at the switch back')
    # obstacle on the path
    inner = [l for l in ls if l is not L]
    k = cases(spin[0].val)[0][1].args[1]
    last0 = I.freeze(I.read1(P.f('last_costmap_'), L.head))
    new = NOT(tobool(cmpv('==', last0, leaf(mk('after', k, 'spinOnce', P.f('last_costmap_'))))))
    n = size_of(reduce(P.f('previous_path_'), 'poses'))
    look = AND(ok, map_, NOT(j), new, int_lt(leaf(num(1)), leaf(n)))
    pose = None
    if len(inner) == 1:
        M = inner[0]
        exactly(ctx, 'obstacle-on-path', M.entry.g, look, site, 'look for obstacles on the path')
        cell = [e for e in I.events if e.kind == 'index' and M in e.loops and all(t is P.f('cm_') for g, t in cases(e.obj))]
        ctx.ob('obstacle-on-path', len(cell) == 1, site, '%d cells per pose' % len(cell))
        for e in cell:
            pos = leaf(mk('elem', reduce(P.f('previous_path_'), 'poses'), M.ind))
            want = mk('call', 'metric2Grid', mk('fld', cases(pos)[0][1], 'pose'))
            ctx.ob('obstacle-on-path', all(root(t) is want for g, t in cases(e.args[0])), at(e), 'cell %s' % show(e.args[0])[:300])
            occ = IN.eq_leaf(mk('elem', P.f('cm_'), cases(e.args[0])[0][1]), num(100))
            ctx.entail('obstacle-on-path', AND(M.next.g, occ), FALSE, at(e), 'goes on although the path is occupied')
            ctx.entail('obstacle-on-path', AND(M.body_g, NOT(occ)), M.next.g, at(e), 'poses are left out')
            pose = occ
        full = int_lt(leaf(M.ind), leaf(n))
        ctx.entail('obstacle-on-path', AND(M.entry.g, full, NOT(M.cond)), FALSE, site, 'not every pose is looked at')
    else:
        ctx.ob('obstacle-on-path', False, site, '%d loops over the path' % len(inner))
    # nothing else ends the wait
    for e in arr:
        why = OR(late, AND(map_, j), AND(map_, swb, near), pose if pose is not None and len(e.loops) > 1 else FALSE)
        ctx.entail('waits', e.g, why, at(e), 'waiting ends without reason')


def arrived(I, P, S, W):
    x = lambda o, *p: leaf(reduce(o, 'pose', *p))
    sub = lambda a, b: lift2(lambda u, v: leaf(IN.t_add(u, IN.t_neg(v))), a, b)
    sq = lambda a: lift1(lambda u: leaf(IN.t_mul(u, u)), a)
    dy, dx = sub(x(S, 'position', 'y'), x(W, 'position', 'y')), sub(x(S, 'position', 'x'), x(W, 'position', 'x'))
    d = lift2(lambda a, b: leaf(mk('fn', 'sqrt', IN.t_add(a, b))), sq(dy), sq(dx))
    near = lt(d, leaf(P.f('goal_tolerance_lin_f_')))
    yaw = lambda o: leaf(mk('call', 'tf2::getYaw', reduce(o, 'pose', 'orientation')))
    a = sub(yaw(S), yaw(W))
    t = cases(a)[0][1]
    w = leaf(IN.fn_leaf('atan2', IN.fn_leaf('sin', t), IN.fn_leaf('cos', t)))
    tol = leaf(P.f('goal_tolerance_ang_f_'))
    return AND(near, lt(w, tol), lt(lift1(lambda u: leaf(IN.t_neg(u)), w), tol))


JD = 'planner_cspace::planner_3d::JumpDetector'


def chain(x):
    return list(x.args) if x.op == 'chain' else [x]


def inv(x):
    return x.args[0] if x.op == 'tinv' else mk('tinv', x)


def tmul(a, b):
    r = chain(a)
    for x in chain(b):
        if r and r[-1] is inv(x):
            r.pop()
        else:
            r.append(x)
    return mk('chain', *r) if len(r) != 1 else r[0]


def tinverse(a):
    r = [inv(x) for x in reversed(chain(a))]
    return mk('chain', *r) if len(r) != 1 else r[0]


def transform_hooks():
    def obj_(I, st, O, obj):
        return I.freeze(I.read(O if O is not None else I.lval(obj, st), st))

    def mul(I, st, e, d, O, obj):
        return lift2(lambda a, b: leaf(tmul(a, b)), obj_(I, st, O, obj), I.freeze(I.argval(e['a'][-1], st)))

    def inverse(I, st, e, d, O, obj):
        return lift1(lambda a: leaf(tinverse(a)), obj_(I, st, O, obj))

    def times(I, st, e, d, O, obj):
        return lift2(lambda a, b: leaf(tmul(tinverse(a), b)), obj_(I, st, O, obj), I.freeze(I.argval(e['a'][-1], st)))
    return {'tf2::Transform::operator*': mul, 'tf2::Transform::inverse': inverse, 'tf2::Transform::inverseTimes': times}


def jumps(ctx, P):
    f = ctx.one(JD + '::detectJump')
    I = ctx.interp(hooks=transform_hooks())
    r, st = I.run(f)
    site = f.name
    look = [e for e in I.events if e.kind == 'call' and e.name.endswith('::lookupTransform')]
    F_ = lambda n: mk('fld', THIS, n)
    have = {x['n'] for q in ctx.p.records.values() if q.get('qn') == JD for x in q['fields']}
    for n in ('base_trans_prev_', 'map_trans_prev_', 'init_', 'map_frame_', 'jump_detect_frame_'):
        if n not in have:
            raise AnchorMissing('%s::%s' % (JD, n))
    failed = throws_in(I)
    now = {}
    for n, fr in (('base_trans_prev_', 'jump_detect_frame_'), ('map_trans_prev_', 'map_frame_')):
        prev = I.freeze(I.read1(F_(n), st))
        for g, t in cases(prev):
            if t is F_(n):
                ctx.entail('jump', g, failed, site, 'the pose in %s is not kept' % fr)
                continue
            ctx.entail('jump', g, NOT(failed), site, 'an unknown pose in %s is kept' % fr)
            ls = [x for x in subterms(t) if x.op == 'call' and str(x.args[0]).endswith('::lookupTransform')]
            ok = len(ls) == 1 and ls[0].args[2] is F_(fr)
            ctx.ob('jump', ok, site, '%s becomes %s' % (n, show(t)[:300]))
            now[n] = t
    if len(now) != 2:
        return
    B, M = now['base_trans_prev_'], now['map_trans_prev_']
    diff = tmul(tmul(tinverse(M), F_('map_trans_prev_')), tmul(tinverse(F_('base_trans_prev_')), B))
    dis = leaf(mk('call', 'tf2::Vector3::length', mk('call', 'tf2::Transform::getOrigin', diff)))
    yaw = leaf(mk('call', 'tf2::getYaw', mk('call', 'tf2::Transform::getRotation', diff)))
    far = lt(leaf(F_('pos_jump_')), dis)
    turned = OR(lt(leaf(F_('yaw_jump_')), yaw), lt(leaf(F_('yaw_jump_')), lift1(lambda t: leaf(IN.t_neg(t)), yaw)))
    first = NOT(tobool(leaf(F_('init_'))))
    same_bool(ctx, 'jump', tobool(r), AND(NOT(failed), NOT(first), OR(far, turned)), site, 'jump')
    same_bool(ctx, 'jump', bval(I, st, F_('init_')), OR(NOT(failed), NOT(first)), site, 'earlier pose counts as known')
