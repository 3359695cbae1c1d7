"""Goals of the planner node: acceptance, replacement, the end of actions, and when the distance map counts as made for the goal."""
from planlib import *
EXPLANATION = ('Goal, action and cancel handlers are summarised over an arbitrary state of the node with action servers as running or not; the preparation of the '
               'distance map is summarised with relocation as an arbitrary outcome for start and goal; effects are compared as guarded values at every exit.')
ASSUMPTIONS = ['callbacks run one at a time', 'an action server runs from the acceptance of a goal until it is told the end', 'real arithmetic']
OK, RELOCATED, ROCK, OUT = 0, 1, 2, 3


def check(ctx):
    P = Plan(ctx)
    ctx.part(new_goal, P)
    ctx.part(by_topic, P)
    ctx.part(by_action, P)
    ctx.part(cancel, P)
    ctx.part(prepare, P)


def num(k):
    return mk('num', k)


def new_goal(ctx, P):
    f = P.fn('setGoal')
    I, r, st = P.run(f, quiet=['createCostEstimCache'])
    msg = par(f, 0)
    m = lambda *p: reduce_fld(msg, p)
    same = IN.eq_leaf(m('header', 'frame_id'), mk('fld', P.f('map_header_'), 'frame_id'))
    site = f.name
    calls = by(I, 'createCostEstimCache')
    made = [tobool(e.val) for e in calls]
    # another frame
    unchanged(ctx, 'other-frame-changes-nothing', I, st, of_this(written(I, st)), site, 'a goal in another frame', NOT(same))
    for e in I.events:
        if e.kind in ('end', 'accept') or e.kind == 'call' and (e in calls or e.name.endswith('::publish')):
            ctx.entail('other-frame-changes-nothing', e.g, same, at(e), 'effect of a goal in another frame')
    same_bool(ctx, 'result', r, AND(same, NOT(AND(g_of(calls), NOT(made[0] if made else TRUE)))), site, 'acceptance')
    # the goal taken
    for n in ('goal_', 'goal_raw_', 'goal_original_'):
        for p in (('pose',), ('header',)):
            same_val(ctx, 'becomes-current', I.freeze(I.read1(reduce_fld(P.f(n), p), st)), leaf(m(*p)), site, '%s of %s' % (p[0], n), same)
    # unit orientation
    q = [leaf(m('pose', 'orientation', c)) for c in 'xyzw']
    sq = None
    for x in q:
        y = liftn(lambda v: IN.t_mul(v[0], v[0]), [x])
        sq = y if sq is None else liftn(lambda v: IN.t_add(v[0], v[1]), [sq, y])
    unit = unit_guard(sq)
    exactly(ctx, 'unit-orientation-plans', calls, AND(same, unit), site, 'distance map for the goal')
    once(ctx, 'unit-orientation-plans', calls, site, 'distance map for the goal')
    for e in calls:
        t = then(I, e)
        same_bool(ctx, 'fresh-plan', bval(I, t, P.f('has_goal_')), TRUE, at(e), 'presence of a goal when its distance map is made', e.g)
        same_val(ctx, 'fresh-plan', val(I, t, P.f('cnt_stuck_')), leaf(num(0)), at(e), 'count of failures', e.g)
        same_val(ctx, 'fresh-plan', val(I, t, P.f('escape_status_')), leaf(num(0)), at(e), 'escape', e.g)
        for n in ('goal_', 'goal_raw_', 'goal_original_'):
            same_val(ctx, 'fresh-plan', I.freeze(I.read1(reduce_fld(P.f(n), ('pose',)), t)), leaf(m('pose')), at(e), '%s when the map is made' % n, e.g)
        same_bool(ctx, 'fresh-plan', e.args[0], TRUE, at(e), 'the goal counts as new', e.g)
    ok = AND(same, unit, *made)
    same_bool(ctx, 'goal-held', bval(I, st, P.f('has_goal_')), OR(AND(NOT(same), P.b0('has_goal_')), ok), site, 'presence of a goal')
    same_val(ctx, 'status-doing', val(I, st, reduce_fld(P.f('status_'), ('status',))), leaf(num(DOING)), site, 'status', ok)
    same_val(ctx, 'status-doing', val(I, st, P.f('cnt_stuck_')), leaf(num(0)), site, 'count of failures', ok)
    pub = P.N.published(I, P.f('pub_status_'))
    exactly(ctx, 'status-doing', OR(*[g for e, g, v in pub]) if pub else FALSE, ok, site, 'status message')
    for e, g, v in pub:
        same_val(ctx, 'status-doing', msgf(I, v, 'status'), leaf(num(DOING)), at(e), 'published status', g)
    # cleared goal
    bad = AND(same, NOT(unit))
    for o in P.acts:
        exactly(ctx, 'cleared-goal-ends-actions', ended(I.events, o, 'succeeded'), AND(bad, P.run0(o)), site, 'end of %s' % show(o))
        exactly(ctx, 'cleared-goal-ends-actions', ended(I.events, o), AND(bad, P.run0(o)), site, 'any end of %s' % show(o))
    for e in I.events:
        ctx.ob('ends-its-own', e.kind != 'end' or all(t in P.acts for g, t in cases(e.obj)), at(e), 'unknown action is ended')
    ends_only_running(ctx, I, 'ends-only-running')


def unit_guard(sq):
    lo, hi = tobool(cmpv('<', leaf(mk('num', Fraction(9, 10))), sq)), tobool(cmpv('<', sq, leaf(mk('num', Fraction(11, 10)))))
    return AND(lo, hi)


def reduce_fld(o, p):
    for x in p:
        o = mk('fld', o, x)
    return o


def by_topic(ctx, P):
    f = P.N.callback('move_base_simple/goal')
    I, r, st = P.run(f, quiet=['setGoal'])
    busy = OR(*[P.run0(o) for o in P.acts])
    es = by(I, 'setGoal')
    exactly(ctx, 'ignored-while-action-runs', es, NOT(busy), f.name, 'taking the goal')
    once(ctx, 'ignored-while-action-runs', es, f.name, 'taking the goal')
    for e in es:
        same_val(ctx, 'goal-of-message', e.args[0], leaf(par_msg(f)), at(e), 'goal', e.g)
    ctx.ob('ignored-while-action-runs', not [e for e in I.events if e.kind in ('end', 'accept')], f.name, 'an action is ended or started')
    unchanged(ctx, 'ignored-while-action-runs', I, st, of_this(written(I, st)), f.name, 'a goal by topic')


def by_action(ctx, P):
    for f, me, other in ((P.on_action('act_', 'registerGoalCallback'), P.act, P.actT), (P.on_action('act_tolerant_', 'registerGoalCallback'), P.actT, P.act)):
        I, r, st = P.run(f, quiet=['setGoal'])
        es = by(I, 'setGoal')
        free = NOT(P.run0(other))
        acc = [e for e in I.events if e.kind == 'accept']
        exactly(ctx, 'one-action-at-a-time', acc, free, f.name, 'acceptance')
        exactly(ctx, 'one-action-at-a-time', es, free, f.name, 'taking the goal')
        once(ctx, 'one-action-at-a-time', acc, f.name, 'acceptance')
        once(ctx, 'one-action-at-a-time', es, f.name, 'taking the goal')
        for e in acc:
            same_val(ctx, 'one-action-at-a-time', e.obj, leaf(me), at(e), 'server whose goal is accepted', e.g)
        taken = TRUE
        for e in es:
            want = leaf(mk('fld', mk('deref', mk('call', 'acceptNewGoal', me)), 'target_pose'))
            same_val(ctx, 'goal-of-action', e.args[0], want, at(e), 'goal', e.g)
            taken = tobool(e.val)
            if me is P.actT:
                same_val(ctx, 'tolerances-of-action', I.freeze(I.read1(P.f('goal_tolerant_'), then(I, e))), leaf(mk('call', 'acceptNewGoal', me)), at(e), 'kept goal', e.g)
        exactly(ctx, 'refused-goal-aborts', ended(I.events, me, 'aborted'), AND(free, NOT(taken)), f.name, 'abort')
        exactly(ctx, 'refused-goal-aborts', ended(I.events, me), AND(free, NOT(taken)), f.name, 'end of the action')
        ctx.entail('one-action-at-a-time', ended(I.events, other), FALSE, f.name, 'the other action is ended')
        ends_only_running(ctx, I, 'ends-only-running')
        unchanged(ctx, 'only-the-goal', I, st, of_this(written(I, st)), f.name, 'an action', but=[P.f('goal_tolerant_'), running_loc(me)])


def cancel(ctx, P):
    fs = [P.on_action(n, 'registerPreemptCallback') for n in ('act_', 'act_tolerant_')]
    for f in {f.name: f for f in fs}.values():
        ctx.part(cancel1, P, f, [o for o, h in zip(P.acts, fs) if h.name == f.name])


def cancel1(ctx, P, f, mine):
    I, r, st = P.run(f)
    for o in P.acts:
        exactly(ctx, 'cancel-preempts', ended(I.events, o, 'preempted'), P.run0(o), f.name, 'end of %s' % show(o))
        exactly(ctx, 'cancel-preempts', ended(I.events, o), P.run0(o), f.name, 'any end of %s' % show(o))
    same_bool(ctx, 'cancel-drops-goal', bval(I, st, P.f('has_goal_')), FALSE, f.name, 'presence of a goal')
    same_val(ctx, 'cancel-drops-goal', val(I, st, P.f('escape_status_')), leaf(num(0)), f.name, 'escape')
    same_val(ctx, 'cancel-drops-goal', val(I, st, reduce_fld(P.f('status_'), ('status',))), leaf(num(DONE)), f.name, 'status')
    ends_only_running(ctx, I, 'ends-only-running')

def prepare(ctx, P):
    f = P.fn('createCostEstimCache')
    Q = ['publishDebug', 'clearHysteresis', 'updateTemporaryEscapeGoal']
    I, r, st = P.run(f, quiet=Q, values=['metric2Grid', 'grid2MetricPose'], hooks={C + '::relocateDiscretePoseIfNeeded': relocation()})
    site = f.name
    goal, ready = P.b0('has_goal_'), AND(P.b0('has_map_'), P.b0('has_start_'))
    rel = by(I, 'relocateDiscretePoseIfNeeded')
    s_cell = mk('call', 'metric2Grid', reduce_fld(P.f('start_'), ('pose',)))
    e_cell = mk('call', 'metric2Grid', reduce_fld(P.f('goal_raw_'), ('pose',)))
    who = {}
    for e in rel:
        for g, t in cases(e.args[0]):
            k = 's' if root(t) is s_cell else 'e' if root(t) is e_cell else None
            ctx.ob('cells-of-start-and-goal', k is not None and k not in who and not e.loops, at(e), '%s is checked' % show(t)[:200])
            who[k] = e
        same_val(ctx, 'cells-of-start-and-goal', e.args[1], leaf(P.f('tolerance_range_')), at(e), 'range of the search')
        same_val(ctx, 'cells-of-start-and-goal', e.args[2], leaf(P.f('tolerance_angle_')), at(e), 'angular range of the search')
        same_bool(ctx, 'cells-of-start-and-goal', e.args[3], FALSE, at(e), 'check on the map without headings')
    if 's' not in who or 'e' not in who:
        ctx.ob('cells-of-start-and-goal', False, site, 'start or goal is not checked against the map')
        return
    go = AND(goal, ready)

    def status(k, v):
        return IN.eq_leaf(cases(who[k].val)[0][1], num(v))
    s_out, s_rock = AND(go, status('s', OUT)), AND(go, status('s', ROCK))
    ctx.entail('cells-of-start-and-goal', go, who['s'].g, at(who['s']), 'start is not checked')
    s_ok = AND(go, NOT(status('s', OUT)), NOT(status('s', ROCK)))
    ctx.entail('cells-of-start-and-goal', s_ok, who['e'].g, at(who['e']), 'goal is not checked')
    dis = [NOT(AND(status(k, a), status(k, b))) for k in 'se' for a in range(4) for b in range(a)]
    ax = AND(*dis)
    e_out, e_rock, e_moved = AND(s_ok, status('e', OUT)), AND(s_ok, status('e', ROCK)), AND(s_ok, status('e', RELOCATED))
    e_free = AND(s_ok, NOT(status('e', OUT)), NOT(status('e', ROCK)))
    same_bool(ctx, 'ruled-out-by-map', r, NOT(OR(s_out, e_out)), site, 'acceptance of the goal', ax)
    # distance map of this goal
    made = [e for e in I.events if e.kind == 'call' and e.name.endswith('DistanceMap::create')]
    mine = [e for e in made if all(t is P.f('cost_estim_cache_') for g, t in cases(e.obj))]
    ctx.ob('distance-map-of-goal', len(mine) == len(made), site, 'another distance map is made')
    exactly(ctx, 'distance-map-of-goal', mine, e_free, site, 'distance map', ax)
    once(ctx, 'distance-map-of-goal', mine, site, 'distance map')
    for e in mine:
        for i, k in ((0, 's'), (1, 'e')):
            want = mk('moved', cases(who[k].val)[0][1].args[0])
            ctx.ob('distance-map-of-goal', all(root(t) is want for g, t in cases(e.args[i]) if sat(AND(g, e.g, ax))), at(e),
                   'made for %s' % show(e.args[i])[:200])
    same_bool(ctx, 'made-for-current-goal', bval(I, st, P.f('cost_estim_cache_created_')), OR(AND(NOT(goal), P.b0('cost_estim_cache_created_')), e_free), site,
              'the distance map counts as made for the goal', ax)
    # reasons of failure
    same_bool(ctx, 'start-occupied', bval(I, st, P.f('is_start_occupied_')), s_rock, site, 'start counts as occupied', AND(go, ax))
    escaping = NOT(IN.eq_leaf(P.f('escape_status_'), num(0)))
    stuck = OR(s_rock, AND(e_rock, NOT(escaping)))
    c0 = leaf(P.f('cnt_stuck_'))
    c1 = liftn(lambda v: IN.t_add(v[0], v[1]), [c0, leaf(num(1))])
    c = val(I, st, P.f('cnt_stuck_'))
    same_val(ctx, 'counts-failures', c, c1, site, 'count of failures', AND(ax, stuck))
    same_val(ctx, 'counts-failures', c, c0, site, 'count of failures', AND(ax, NOT(stuck)))
    # current goal
    revert = AND(e_rock, escaping)
    for p in (('pose',), ('header',)):
        raw, orig, cur = [leaf(reduce_fld(P.f(n), p)) for n in ('goal_raw_', 'goal_original_', 'goal_')]
        now = I.freeze(I.read1(reduce_fld(P.f('goal_'), p), st))
        nraw = I.freeze(I.read1(reduce_fld(P.f('goal_raw_'), p), st))
        same_val(ctx, 'back-to-original-goal', now, orig, site, 'goal after a lost temporary goal', AND(ax, revert))
        same_val(ctx, 'back-to-original-goal', nraw, orig, site, 'requested goal after a lost temporary goal', AND(ax, revert))
        same_val(ctx, 'goal-kept', nraw, raw, site, 'requested goal', AND(ax, NOT(revert)))
        same_val(ctx, 'goal-kept', now, raw, site, 'goal that is free', AND(ax, e_free, NOT(status('e', RELOCATED))))
        same_val(ctx, 'goal-kept', now, cur, site, 'goal', AND(ax, NOT(OR(revert, e_free))))
        if p == ('pose',):
            want = mk('call', 'grid2MetricPose', mk('moved', cases(who['e'].val)[0][1].args[0]))
            same_val(ctx, 'goal-moved', rooted(now), leaf(want), site, 'moved goal', AND(ax, e_moved))
    st_esc = val(I, st, P.f('escape_status_'))
    same_val(ctx, 'back-to-original-goal', st_esc, leaf(num(0)), site, 'escape', AND(ax, revert))
    same_val(ctx, 'back-to-original-goal', st_esc, leaf(P.f('escape_status_')), site, 'escape', AND(ax, NOT(revert)))
    esc = by(I, 'updateTemporaryEscapeGoal')
    exactly(ctx, 'escape-in-crowd', esc, AND(e_rock, NOT(escaping), P.b0('temporary_escape_'), P.b0('enable_crowd_mode_')), site, 'temporary goal', ax)
    for e in esc:
        want = mk('moved', cases(who['s'].val)[0][1].args[0])
        ctx.ob('escape-in-crowd', all(root(t) is want for g, t in cases(e.args[0])), at(e), 'from %s' % show(e.args[0])[:200])
    # hysteresis of the previous goal
    new = tobool(leaf(par(f, 0)))
    cl = by(I, 'clearHysteresis')
    exactly(ctx, 'new-goal-forgets-path', cl, AND(go, new), site, 'clearing of the previous path', ax)
    same_bool(ctx, 'new-goal-forgets-path', bval(I, st, P.f('has_hysteresis_map_')), AND(P.b0('has_hysteresis_map_'), NOT(AND(go, new))), site,
              'the previous path counts', ax)
    same_bool(ctx, 'goal-kept', bval(I, st, P.f('has_goal_')), goal, site, 'presence of a goal', ax)


def rooted(v):
    return IN.lift1(lambda t: leaf(mk('call', t.args[0], *[root(x) for x in t.args[1:]]) if t.op == 'call' and t.args[0] == 'grid2MetricPose' else t), v)

