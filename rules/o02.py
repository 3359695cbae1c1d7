"""Odometry corrected by an IMU: what is published for every odometry message, and the state kept."""
from rosmodel import *
from eigen3 import rewrite, quat_mul, rot
UNITS = ['track_odometry/src/track_odometry.cpp']
CLS = 'TrackOdometryNode'
KF = 'track_odometry::KalmanFilter1::'
EXPLANATION = ('The odometry handler is summarised over an arbitrary state with the slip filter as a symbol; published pose, transform and stored state are '
               'compared by exact rational functions of the components (rotations as quaternion products).')
ASSUMPTIONS = ['callbacks run one at a time', 'orientations are unit quaternions', 'real arithmetic', 'the filter itself is covered by T04']


def check(ctx):
    N_ = RosNode(ctx, CLS, ['spin'])
    R = Roles(ctx, N_)
    ctx.part(odometry, N_, R)
    ctx.part(slip, N_, R)
    ctx.part(imu, N_, R)
    ctx.part(others, N_, R)


def kf_hook(name):
    def hook(I, st, e, d, O, obj):
        if O is None:
            O = I.lval(obj, st)
        args = tuple(I.freeze(I.rv(a, st)) for a in e['a'])
        t = mk('kf', name, I.fresh())
        I.emit('call', KF + name, st, e['l'], args=args, loc=O, val=leaf(t), decl=d)
        I.write(O, leaf(t), st)
        return None
    return hook


class Roles(object):
    def __init__(self, ctx, N_):
        self.out = N_.publisher('odom')
        fs = [f for f in ctx.p.repo_funcs() if f.cls == CLS and len(f.params) == 1 and 'Odometry' in ptype(f, 0)]
        if len(fs) != 1:
            raise AnchorMissing('odometry handler: %d functions' % len(fs))
        self.f = fs[0]
        self.hooks = {KF + 'predict': kf_hook('predict'), KF + 'measure': kf_hook('measure')}
        self.run = N_.run(self.f, hooks=self.hooks)
        fs = [f for f in ctx.p.repo_funcs() if f.cls == CLS and len(f.params) == 1 and 'Imu' in ptype(f, 0)]
        if len(fs) != 1:
            raise AnchorMissing('IMU handler: %d functions' % len(fs))
        self.fi = fs[0]
        self.par = {}
        for n in ('use_kf', 'enable_negative_slip', 'sigma_odom', 'sigma_predict', 'predict_filter_tc', 'z_filter_timeconst', 'tf_tolerance', 'publish_tf'):
            if n not in N_.params:
                raise AnchorMissing('parameter %s' % n)
            self.par[n] = N_.params[n]
        I, r, st = self.run
        self.msg = par_msg(self.f)
        # flags and stored messages
        self.first = None
        for l in written(I, st):
            ts = leaves(I.freeze(I.read1(l, st)))
            if all(t is l or t.op in ('true', 'false') for t in ts) and any(t.op == 'true' for t in ts):
                self.first = l
        if self.first is None:
            raise AnchorMissing('flag of the first odometry')
        es = [e for e in I.events if e.kind == 'call' and e.name == KF + 'predict']
        raw = {base_of(l) for e in es for a in e.args for t in leaves(I.freeze(a)) for l in subterms(t) if l.op == 'fld' and path_of(l)[-2:] == ['header', 'stamp'] and rootloc(l).op == 'this'}
        used = {base_of(l) for _, _, v in N_.published(I, self.out) for t in leaves(lib(rewrite(msgf(I, v, 'pose', 'pose', 'position', 'x')))) for l in subterms(t)
                if l.op == 'fld' and path_of(l)[-4:] == ['pose', 'pose', 'position', 'x'] and rootloc(l).op == 'this'}
        used |= {base_of(l) for l in written(I, st) if path_of(l)[-3:] == ['pose', 'position', 'x'] or path_of(l)[-4:] == ['pose', 'pose', 'position', 'x']}
        used |= {l for l in written(I, st) if any(t is self.msg for t in leaves(I.freeze(I.read1(l, st))))}
        self.raw = raw.pop() if len(raw) == 1 else None
        used = [u for u in used if u is not self.raw]
        self.prev = used[0] if len(used) == 1 else None
        if self.raw is None or self.prev is None:
            raise AnchorMissing('stored odometry (%s, %s)' % (self.raw, self.prev))


def ptype(f, i):
    t = f.tu.types[f.params[i]['t']]
    if t.get('c') == 'ref':
        t = f.tu.types[t['pt']]
    return str(t.get('s', '')) + str(t.get('rec', ''))


def path_of(l):
    p = []
    while l.op == 'fld':
        p.insert(0, l.args[1])
        l = l.args[0]
    return p


def base_of(l):
    """member of this a location lies in"""
    while l.op == 'fld' and l.args[0].op != 'this':
        l = l.args[0]
    return l


def F(l, path):
    for p in path.split('.'):
        l = mk('fld', l, p)
    return l


def parts(R):
    m = R.msg
    dt = t_sub(F(m, 'header.stamp'), F(R.raw, 'header.stamp'))
    return dt


XYZ = 'xyz'


def imu_loc(ctx, N_, R):
    I, r, st = N_.run(R.fi)
    ls = {base_of(l) for l in written(I, st) if 'angular_velocity' in path_of(l)}
    if len(ls) != 1:
        raise AnchorMissing('stored IMU data')
    return ls.pop()


def ready(N_, R):
    """flag that IMU data is there"""
    I, r, st = N_.run(R.fi)
    fl = [l for l in written(I, st) if all(t is l or t.op in ('true', 'false') for t in leaves(I.freeze(I.read1(l, st))))]
    fl = [l for l in fl if any(a.op == 'throws' for a in (atoms[x] for x in dvars(I.freeze(I.read1(l, st)))))]
    if len(fl) != 1:
        raise AnchorMissing('flag of IMU data: %d' % len(fl))
    return fl[0]


def odometry(ctx, N_, R):
    I, r, st = R.run
    site = at(R.f)
    m = R.msg
    imu = imu_loc(ctx, N_, R)
    has = ready(N_, R)
    second, data = bvar(R.first), bvar(has)
    live = AND(second, data)
    ps = N_.published(I, R.out)
    g = OR(*[x for _, x, _ in ps]) if ps else FALSE
    ctx.entail('published-when-possible', g, live, site, 'odometry is published')
    ctx.entail('published-when-possible', live, g, site, 'no odometry is published')
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            ctx.entail('published-when-possible', AND(ps[i][1], ps[j][1]), FALSE, at(ps[j][0]), 'published twice')
    dt = parts(R)
    w_o, w_i = F(m, 'twist.twist.angular.z'), F(imu, 'angular_velocity.z')
    wi = ite(AND(cmp_terms('<', t_mul(w_o, w_i), ZERO, False), NOT(bvar(R.par['enable_negative_slip']))), leaf(w_o), leaf(w_i))
    so = R.par['sigma_odom']
    big = tobool(lift1(lambda t: cmp_terms('>', t, t_mul(so, num(3)), False), absval(w_o)))
    ratio = ite(big, lift1c(lambda t: t_fdiv(t, w_o), wi), leaf(ONE))
    kf = [e for e in I.events if e.kind == 'call' and e.name == KF + 'measure']
    ctx.ob('slip-estimated', len(kf) == 1, site, '%d updates of the slip estimate' % len(kf))
    if len(kf) != 1:
        return
    x = F(kf[0].val.leaf, 'x_')
    scale = ite(bvar(R.par['use_kf']), leaf(t_sub(ONE, x)), ratio)
    q = [F(imu, 'orientation.' + c) for c in 'wxyz']
    qo = [F(m, 'pose.pose.orientation.' + c) for c in 'wxyz']
    diff = [t_sub(F(m, 'pose.pose.position.' + c), F(R.raw, 'pose.pose.position.' + c)) for c in XYZ]
    v = rot(quat_mul(q, [qo[0]] + [t_neg(a) for a in qo[1:]]), diff)
    tc = R.par['z_filter_timeconst']
    pos = []
    for i, c in enumerate(XYZ):
        p = lift1c(lambda s: t_add(F(R.prev, 'pose.pose.position.' + c), t_mul(v[i], s)), scale)
        if c == 'z':
            p = ite(cmp_terms('>', tc, ZERO, False), lift1c(lambda a: t_mul(a, t_sub(ONE, t_fdiv(dt, tc))), p), p)
        pos.append(p)
    stamp = t_add(F(m, 'header.stamp'), R.par['tf_tolerance'])

    def same_as(rule, where, I, val, G, names, pose):
        """position, orientation and time stamp of a message"""
        for i, c in enumerate(XYZ):
            agree(ctx, rule, where, lib(rewrite(msgf(I, val, *(names[0] + (c,))))), pos[i], G, 'position ' + c)
        for i, c in enumerate('wxyz'):
            agree(ctx, rule, where, lib(rewrite(msgf(I, val, *(names[1] + (c,))))), leaf(q[i]), G, 'orientation ' + c)
        agree(ctx, 'time-stamp', where, tnum(msgf(I, val, 'header', 'stamp')), leaf(stamp), G)
    pose = (('pose', 'pose', 'position'), ('pose', 'pose', 'orientation'))
    for e, x_, val in ps:
        same_as('pose-integrates-motion', at(e), I, val, x_, pose, True)
        for c in XYZ:
            agree(ctx, 'velocity', at(e), msgf(I, val, 'twist', 'twist', 'angular', c), leaf(F(imu, 'angular_velocity.' + c)), x_, 'angular ' + c)
            agree(ctx, 'velocity', at(e), msgf(I, val, 'twist', 'twist', 'linear', c), leaf(F(m, 'twist.twist.linear.' + c)), x_, 'linear ' + c)
        frame(ctx, 'frames', at(e), I.freeze(msgf(I, val, 'header', 'frame_id', ty=None)), F(m, 'header.frame_id'), x_)
    # transform
    ts = [e for e in I.events if e.kind == 'call' and e.name.endswith('TransformBroadcaster::sendTransform')]
    g = OR(*[e.g for e in ts]) if ts else FALSE
    tf = AND(live, bvar(R.par['publish_tf']))
    ctx.entail('transform-published', g, tf, site, 'a transform is published')
    ctx.entail('transform-published', tf, g, site, 'no transform is published')
    for e in ts:
        same_as('transform-is-pose', at(e), I, e.args[0], e.g, (('transform', 'translation'), ('transform', 'rotation')), False)
        frame(ctx, 'frames', at(e), I.freeze(msgf(I, e.args[0], 'header', 'frame_id', ty=None)), F(m, 'header.frame_id'), e.g)
        c1 = I.freeze(msgf(I, e.args[0], 'child_frame_id', ty=None))
        for e2, x2, val in ps:
            c2 = I.freeze(msgf(I, val, 'child_frame_id', ty=None))
            ctx.ob('frames', not any(sat(AND(e.g, x2, h, k)) and a is not b for h, a in cases(c1) for k, b in cases(c2)), at(e), 'child frames of odometry and transform differ')
    # state
    kept = OR(NOT(second), data)
    for c in XYZ:
        l = F(R.raw, 'pose.pose.position.' + c)
        agree(ctx, 'previous-odometry', site, I.freeze(I.typed(I.read1(l, st), FLT)), ite(kept, leaf(F(m, 'pose.pose.position.' + c)), leaf(l)), st.g, 'raw position ' + c)
    l = F(R.raw, 'header.stamp')
    agree(ctx, 'previous-odometry', site, tnum(I.freeze(I.read1(l, st))), ite(kept, leaf(F(m, 'header.stamp')), leaf(l)), st.g, 'raw time')
    for i, c in enumerate(XYZ):
        l = F(R.prev, 'pose.pose.position.' + c)
        agree(ctx, 'previous-output', site, lib(rewrite(I.freeze(I.typed(I.read1(l, st), FLT)))), ite(NOT(second), leaf(F(m, 'pose.pose.position.' + c)), ite(data, pos[i], leaf(l))), st.g, 'position ' + c)
    f1 = tobool(I.freeze(I.typed(I.read1(R.first, st), {'c': 'bool'})))
    ctx.entail('previous-odometry', st.g, f1, site, 'the first odometry is not remembered')
    f0 = tobool(N_.I.freeze(N_.I.typed(N_.I.read1(R.first, N_.st), {'c': 'bool'})))
    ctx.ob('starts-empty', f0 is FALSE, at(N_.ctor), 'an odometry is there from the start: ' + show(f0))
    f0 = tobool(N_.I.freeze(N_.I.typed(N_.I.read1(has, N_.st), {'c': 'bool'})))
    ctx.ob('starts-empty', f0 is FALSE, at(N_.ctor), 'IMU data is there from the start: ' + show(f0))


def frame(ctx, rule, where, got, want, g):
    ctx.ob(rule, all(t is want for h, t in cases(got) if sat(AND(g, h))), where, 'frame is ' + show(got)[:200])


def slip(ctx, N_, R):
    I, r, st = R.run
    site = at(R.f)
    imu, has = imu_loc(ctx, N_, R), ready(N_, R)
    live = AND(bvar(R.first), bvar(has))
    m = R.msg
    dt = parts(R)
    pr = [e for e in I.events if e.kind == 'call' and e.name == KF + 'predict']
    ms = [e for e in I.events if e.kind == 'call' and e.name == KF + 'measure']
    ctx.ob('slip-estimated', len(pr) == 1 and len(ms) == 1 and I.events.index(pr[0]) < I.events.index(ms[0]), site, 'prediction and update of the slip')
    if len(pr) != 1 or len(ms) != 1:
        return
    for e in (pr[0], ms[0]):
        ctx.entail('slip-estimated', live, e.g, at(e), 'the slip is not estimated')
        ctx.entail('slip-estimated', e.g, live, at(e), 'the slip is estimated without data')
    sl = pr[0].loc.leaf if isinstance(pr[0].loc, N) else pr[0].loc
    agree(ctx, 'slip-forgotten', at(pr[0]), pr[0].args[0], leaf(t_neg(t_mul(F(sl, 'x_'), t_mul(dt, R.par['predict_filter_tc'])))), pr[0].g, 'change')
    agree(ctx, 'slip-forgotten', at(pr[0]), pr[0].args[1], leaf(t_mul(dt, R.par['sigma_predict'])), pr[0].g, 'deviation')
    w_o, w_i = F(m, 'twist.twist.angular.z'), F(imu, 'angular_velocity.z')
    so = R.par['sigma_odom']
    wi = ite(AND(cmp_terms('<', t_mul(w_o, w_i), ZERO, False), NOT(bvar(R.par['enable_negative_slip']))), leaf(w_o), leaf(w_i))
    neg = cmp_terms('<', w_o, ZERO, False)
    aw = ite(neg, leaf(t_neg(w_o)), leaf(w_o))
    val = lift2c(lambda a, b: t_fdiv(t_sub(w_o, a), t_mul(w_o, b)), wi, aw)
    pre = AND(ms[0].g, NOT(cmp_terms('==', w_o, ZERO, False)), cmp_terms('>', so, ZERO, False))
    agree(ctx, 'slip-measured', at(ms[0]), lib(ms[0].args[0]), val, pre, 'slip per angular velocity')
    small = tobool(lift1(lambda t: cmp_terms('<', t, so, False), aw))
    d = t_sub(t_mul(w_o, w_o), t_mul(so, so))
    s = lift1c(lambda a: t_fdiv(t_mul(num(2), t_mul(a, t_mul(so, so))), t_mul(d, d)), aw)
    got = lib(ms[0].args[1])
    inf = [t for h, t in cases(got) if sat(AND(pre, h, small)) and not (t.op == 'inf')]
    ctx.ob('slow-turn-not-measured', not inf, at(ms[0]), 'a turn slower than the noise is measured with deviation ' + ', '.join(show(t)[:100] for t in inf))
    fine = AND(pre, NOT(small), signs(got), NOT(cmp_terms('==', d, ZERO, False)))
    agree(ctx, 'slip-measured', at(ms[0]), got, s, fine, 'deviation')


def signs(v):
    """comparisons of sigma-weighted quotients with zero follow the sign of the turn: the denominator is a square"""
    g = TRUE
    for x in dvars(v):
        a = atoms[x]
        if a.op in ('lt', 'rle') and a.args[1] == 0 and isinstance(a.args[0], T) and any(t.op == 'poly' and any(p < 0 for mm, c in t.args[0] for b, p in mm) for t in (a.args[0],)):
            t = a.args[0]
            num_ = numer(t)
            if num_ is not None:
                c = cmp_terms('<' if a.op == 'lt' else '<=', num_, ZERO, False)
                g = AND(g, IFF(bvar(a), c))
    return g


def numer(t):
    """sign-equivalent of w*sigma/(square): drops denominators, odd powers kept"""
    ms = t.args[0]
    if len(ms) != 1:
        return None
    m, c = list(ms)[0]
    x = num(1 if c > 0 else -1)
    for b, p in m:
        if p < 0:
            continue
        if p % 2:
            if 'sigma' in show(b):
                continue
            x = t_mul(x, b)
    return x


def imu(ctx, N_, R):
    I, r, st = N_.run(R.fi)
    site = at(R.fi)
    m = par_msg(R.fi)
    imu_, has = imu_loc(ctx, N_, R), ready(N_, R)
    fr = [l for x in dvars(st_guard(I, has, st)) for l in subterms(atoms[x]) if l.op == 'fld' and l.args[0].op == 'this' and l is not has]
    v = tobool(I.freeze(I.typed(I.read1(has, st), {'c': 'bool'})))
    th = [atoms[x] for x in dvars(v) if atoms[x].op == 'throws']
    fail = OR(*[bvar(t) for t in th])
    base = [atoms[x] for x in dvars(v) if '#size' in show(atoms[x])]
    named = NOT(bvar(base[0])) if base else TRUE
    ctx.entail('data-needs-transform', AND(st.g, named, NOT(fail)), v, site, 'transformed data does not count')
    ctx.entail('data-needs-transform', AND(st.g, named, fail), NOT(v), site, 'data counts without its transform')
    ok = AND(st.g, named, NOT(fail))
    lk = [e for e in I.events if e.kind == 'call' and e.name.endswith('lookupTransform')]
    ctx.need('transform lookups', len(lk))
    for e in lk:
        a, b = [I.freeze(x).leaf for x in e.args[:2]]
        ctx.ob('data-in-base-frame', a is not None and a.op == 'fld' and a.args[0].op == 'this' and b is F(m, 'header.frame_id'), at(e), 'transform from %s to %s' % (show(e.args[1]), show(e.args[0])))
    for n in ('linear_acceleration', 'angular_velocity'):
        v = I.freeze(I.read1(mk('fld', imu_, n), st))
        for h, t in cases(v):
            if not sat(AND(ok, h)):
                continue
            want = F(m, n)
            o = t
            while o.op == 'fld':
                o = o.args[0]
            src = o.args[2] if o.op == 'out' and 'doTransform' in str(o.args[0]) else None
            good = False
            if src is not None:
                x = I.freeze(I.getfld(leaf(src) if isinstance(src, T) else src, 'vector'))
                good = all(y is want for hh, y in cases(x) if sat(AND(ok, hh))) and any(z.op == 'call' and z.args[0].endswith('lookupTransform') for z in subterms(o.args[4] if len(o.args) > 4 else o))
            ctx.ob('data-in-base-frame', good, site, '%s is %s' % (n, show(t)[:200]))
    # the axis of the orientation is turned by the transform, its angle kept
    qs = [t for e in I.events if e.kind == 'call' for x in e.args if isinstance(x, (N, T)) for t in terms_in(x, 'ctor') if str(t.args[0]) == 'tf2::Quaternion' and len(t.args) >= 3]
    v = I.freeze(I.read1(mk('fld', imu_, 'orientation'), st))
    for h, t in cases(v):
        if sat(AND(ok, h)):
            ctx.ob('data-in-base-frame', any(z is F(m, 'orientation') for z in subterms(t)), site, 'orientation is ' + show(t)[:200])
    for t in {id(t): t for t in qs}.values():
        tr = [z for z in terms_in(t.args[1], 'out') if str(z.args[0]).endswith('doTransform')]
        ax = [z for d in tr[:1] for z in terms_in(d.args[2], 'call') if str(z.args[0]).endswith('getAxis')]
        an = [z for z in terms_in(t.args[2], 'call') if str(z.args[0]).endswith('getAngle')]
        ctx.ob('data-in-base-frame', len(ax) >= 1 and len(an) == 1 and show(an[0].args[1]) == show(ax[0].args[1]) and F(m, 'orientation') in list(terms_in(an[0], 'fld')),
               site, 'orientation is built from ' + show(t)[:300])


def st_guard(I, l, st):
    return I.freeze(I.read1(l, st))


def others(ctx, N_, R):
    f = N_.callback('reset_odometry_z')
    I, r, st = N_.run(f)
    ws = written(I, st)
    want = F(R.prev, 'pose.pose.position.z')
    m = par_msg(f)
    ctx.ob('height-reset', ws == [want] or ws == [want.args[0]], at(f), 'the reset writes ' + ', '.join(show(w) for w in ws))
    agree(ctx, 'height-reset', at(f), I.freeze(I.typed(I.read1(want, st), FLT)), leaf(F(m, 'data')), st.g)
    # timer without odometry
    for u, e in N_.timers:
        g = N_.func(u)
        I, r, st = N_.run(g, opaque={R.f.qn})
        es = [x for x in I.events if x.kind == 'call' and x.name == R.f.qn]
        ctx.ob('without-odometry', len(es) == 1 and not sat(NOT(es[0].g)), at(g), 'the timer does not supply an odometry')
    # synchronised data: the IMU comes first
    fs = [f for f in ctx.p.repo_funcs() if f.cls == CLS and len(f.params) == 2 and 'Odometry' in ptype(f, 0) and 'Imu' in ptype(f, 1)]
    if len(fs) != 1:
        raise AnchorMissing('handler of synchronised data: %d' % len(fs))
    f = fs[0]
    I, r, st = N_.run(f, opaque={R.f.qn, R.fi.qn})
    es = [x for x in I.events if x.kind == 'call' and x.name in (R.f.qn, R.fi.qn)]
    ctx.ob('imu-before-odometry', [x.name for x in es] == [R.fi.qn, R.f.qn] and not any(sat(NOT(x.g)) for x in es), at(f), 'calls ' + ', '.join(x.name for x in es))
    for x, i in zip(es, (1, 0)):
        v = I.freeze(x.args[0])
        ctx.ob('imu-before-odometry', all(t is par(f, i) for h, t in cases(v)), at(x), 'handles ' + show(v)[:200])
