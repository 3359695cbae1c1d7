"""Maps from scans and point clouds: accumulated clouds, robot-centred window, obstacle cells, and rate of output."""
from core import *
from numlib import *
from rosmodel import *
from cloudmodel import cloud_hooks, count_of
from c01 import exit_guard
from c03 import quiet
from c02 import every_index, fresh_state
from rat import Rat, same
from terms import restrict1
UNITS = ['costmap_cspace/src/pointcloud2_to_map.cpp', 'costmap_cspace/src/laserscan_to_map.cpp']
EXPLANATION = ('The callbacks are summarised; the accumulated value, the window, the cell index and the height band of every mark are compared as real expressions, the marking loops are shown to visit all kept points, '
               'and every effect is conditioned on the transforms it uses. The accumulator is checked per step of its scan over the kept clouds.')
ASSUMPTIONS = ['clouds arrive in order of time', 'real arithmetic', 'finite point coordinates', 'callbacks run one at a time', 'positive resolution']
ACC = 'costmap_cspace::PointcloudAccumulator'
LOOKUP = 'tf2_ros::Buffer::lookupTransform'
NODES = [('costmap_cspace/src/pointcloud2_to_map.cpp', 'Pointcloud2ToMapNode', [('cloud', 'accum_duration'), ('cloud_singleshot', None)]),
         ('costmap_cspace/src/laserscan_to_map.cpp', 'LaserscanToMapNode', [('scan', 'accum_duration')])]


def check(ctx):
    ctx.part(accumulator)
    for u, cls, topics in NODES:
        ctx.part(node, cls, topics)


# ---- accumulator --------------------------------------------------------------------------------------------------
def fl(t, *p):
    return fl(mk('fld', t, p[0]), *p[1:]) if p else t


def acc_method(ctx, name, n=None):
    fs = [f for f in ctx.p.funcs.values() if f.cls and strip_t(f.cls) == ACC and f.name == name and (n is None or len(f.params) == n)]
    if not fs:
        raise AnchorMissing('%s::%s' % (ACC, name))
    return fs[0]


def strip_t(s):
    return s.split('<')[0]


def accumulator(ctx):
    fresh_state()
    f = acc_method(ctx, 'push')
    I = ctx.interp(hooks=node_hooks())
    r, st = I.run(f)
    site = at(f)
    new = par(f, 0)
    pushes = [e for e in I.events if e.kind == 'push']
    lst = None
    for e in pushes:
        o = e.obj if isinstance(e.obj, T) else e.obj.leaf
        ctx.ob('keep-new', lst in (None, o), at(e), 'kept in another list')
        lst = o
        v = I.freeze(e.args[0])
        ctx.ob('keep-new', all(t is new for g, t in cases(v)), at(e), 'keeps %s' % show(v)[:200])
    ctx.ob('keep-new', bool(pushes), site, 'the new cloud is not kept')
    if lst is None:
        return
    once = FALSE
    for e in pushes:
        g = exists_other(e.g, [])
        ctx.ob('keep-new', not e.loops, at(e), 'the new cloud is kept repeatedly')
        ctx.ob('keep-new', not sat(AND(once, g)), at(e), 'the new cloud is kept twice')
        once = OR(once, g)
    ended_ = TRUE
    for l in {l.id: l for e in I.events for l in e.loops[:1]}.values():
        ended_ = AND(ended_, exit_guard(l))
    ctx.entail('keep-new', ended_, once, site, 'the new cloud is not kept')
    # only expired clouds leave, all expired ones at the front do
    hold = mk('fld', mk('this'), hold_name(ctx))
    stamp = fl(new, 'stamp_') if True else None
    removals = [e for e in I.events if e.kind in ('erase', 'pop', 'clear', 'remove_if', 'remove')]
    ctx.ob('discard', bool(removals), site, 'expired clouds are never discarded')
    k = 0
    for e in removals:
        k += 1
        o = e.obj if isinstance(e.obj, T) else e.obj.leaf
        ctx.ob('discard', o is lst, at(e), 'discards from %s' % show(e.obj))
        if e.kind == 'clear':
            ctx.ob('discard', False, at(e), 'all clouds are discarded')
            continue
        if e.name in ('remove_if', 'remove') or e.name.endswith('remove_if'):
            predicate(ctx, I, st, e, hold, new)
            continue
        if not e.loops:
            ctx.ob('discard', False, at(e), 'at most one cloud is discarded per new cloud')
            continue
        scan(ctx, I, e, lst, hold, new)
    return


def dterms(g):
    for v in dvars(g):
        for t in subterms(atoms[v]):
            if isinstance(t, T):
                yield t


def hold_name(ctx):
    """member that takes the duration of the reset"""
    f = acc_method(ctx, 'reset')
    I = ctx.interp(hooks=node_hooks())
    _, st = I.run(f)
    site = at(f)
    m = None
    for l in written(I, st):
        v = I.freeze(I.read1(l, st))
        if any(x is par(f, 0) for t in leaves(v) for x in subterms(t)):
            m = l
    ctx.ob('reset', m is not None, site, 'the hold time is not taken')
    if m is None:
        raise AnchorMissing('hold time of the accumulator')
    ctx.ob('reset', any(e.kind == 'clear' for e in I.events), site, 'the kept clouds are not dropped')
    return m.args[1]


def expired(el, hold, new):
    return cmp_terms('<', t_add(fl(el, 'stamp_'), hold), fl(new, 'stamp_'), False)


def scan(ctx, I, e, lst, hold, new):
    """one step of the scan: an expired cloud leaves and the next one is looked at, a kept one ends the scan or is passed"""
    l = e.loops[-1]
    site = at(e)
    heads = {}
    for loc in l.phis:
        heads[loc] = I.freeze(I.read1(loc, l.head))
    cur = [t for t in leaves(I.freeze(e.args[0])) if True] if e.args else []
    L0 = I.freeze(I.read1(lst, l.head)).leaf
    body = l.body_g
    if e.kind == 'pop':
        front = [t for t in dterms(e.g) if t.op == 'fld' and t.args[1] == 'stamp_' and t.args[0] is not new]
        ctx.ob('discard', e.name in ('pop_front',), site, 'discards at the wrong end')
        ctx.ob('discard', bool(front), site, 'clouds are discarded without a look at their time')
        for t in set(front):
            exp = cmp_terms('<', t_add(t, hold), fl(new, 'stamp_'), False)
            ctx.entail('discard', e.g, exp, site, 'a cloud is discarded that has not expired')
            stay = AND(exit_guard(l), exp)
            n = [x for x in dvars(stay) if '#size' in show(atoms[x])]
            for x in n:
                # not empty
                stay = AND(stay, NOT(bvar(atoms[x]))) if False else stay
            size = mk('fld', l0(t), '#size')
            ctx.entail('discard', AND(stay, cmp_terms('>=', size, ZERO, True)), cmp_terms('<=', size, ZERO, True), site, 'an expired cloud stays at the front')
        return
    # cursor: a position that is the same for every step, or that the loop carries
    ps = {t.args[1] if t.op == 'it' else t for t in cur}
    if len(ps) != 1 or L0 is None:
        raise Unsupported('scan over the kept clouds')
    p = list(ps)[0]
    loc = None
    for q, h in heads.items():
        if q is not lst and h is not None and h.leaf is not None and rootloc(q).op == 'var' and (h.leaf is p or h.leaf in cur and h.leaf is not p):
            loc = q
    if loc is None and p is not ZERO:
        raise Unsupported('scan over the kept clouds')
    elem = None
    for t in list(dterms(e.g)) + list(dterms(body)):
        if t.op == 'fld' and t.args[1] == 'stamp_' and t.args[0] is not new:
            elem = t.args[0]
            ctx.ob('discard', elem.op == 'elem' and elem.args[1] is p, site, 'the time of another cloud decides')
    if elem is None:
        ctx.ob('discard', False, site, 'clouds are discarded without a look at their time')
        return
    exp = expired(elem, hold, new)
    ctx.ob('discard', all(c.op == 'it' and c.args[1] is p or c is p for c in cur), site, 'another cloud is discarded')
    ctx.entail('discard', e.g, exp, site, 'a cloud is discarded that has not expired')
    ctx.entail('discard', AND(body, exp), e.g, site, 'an expired cloud is kept')
    # first cloud first
    if loc is not None:
        i0 = I.freeze(I.read1(loc, l.entry))
        ctx.ob('scan', all(t.op == 'it' and t.args[1] is ZERO for g, t in cases(i0)), site, 'the scan starts at %s' % show(i0))
        nx = I.freeze(I.read1(loc, l.next)) if l.next is not None else None
    else:
        nx = leaf(p) if l.next is not None else None
    if nx is not None:
        for g, t in cases(nx):
            for gg, want, what in ((AND(g, l.next.g, exp), p, 'after a discarded cloud the scan continues at %s'), (AND(g, l.next.g, NOT(exp)), None, 'after a kept cloud the scan continues at %s')):
                if not sat(gg):
                    continue
                u = t
                off = ZERO
                while u.op == 'itstep':
                    off = t_add(off, u.args[1] if isinstance(u.args[1], T) else num(u.args[1]))
                    u = u.args[0]
                if u.op == 'it':
                    off = t_sub(t_add(off, u.args[1]), p) if u.args[1] is not p else off
                elif u is not p:
                    ctx.ob('scan', False, site, what % show(t))
                    continue
                ctx.ob('scan', off is (ZERO if want is p else ONE), site, what % ('the position + %s' % show(off)))
    # the scan ends at the end, or at a cloud that has not expired
    for x in l.exits:
        if x is None:
            continue
        ctx.ob('scan', not sat(AND(x.g, body, exp)), site, 'the scan stops at an expired cloud')
    if l.next is not None:
        size = [t for t in dterms(l.cond) if t.op == 'fld' and t.args[1] == '#size']
        ctx.ob('scan', bool(size), site, 'the scan does not end at the last cloud')


def l0(t):
    while t.op in ('fld', 'elem'):
        if t.op == 'elem':
            return t.args[0]
        t = t.args[0]
    return t


def predicate(ctx, I, st, e, hold, new):
    vs = list(e.args)
    lam = [v.leaf if isinstance(v, N) else v for v in vs if (v.leaf if isinstance(v, N) else v) is not None and (v.leaf if isinstance(v, N) else v).op == 'lambda']
    if not lam:
        raise Unsupported('predicate of the removal')
    pt = mk('par', 'kept cloud')
    s2 = State(st.g, dict(st.mem))
    f = acc_method(ctx, 'push')
    I.frames.append(IN.Frame(f, f.tu, mk('this')))
    try:
        v = I.call_lambda(lam[0].args[0], None, s2, e.line, argvals=[('L', leaf(pt))])
    finally:
        I.frames.pop()
    g = I.freeze(v)
    exp = expired(pt, hold, new)
    ctx.entail('discard', g, exp, at(e), 'a cloud is discarded that has not expired')
    ctx.entail('discard', exp, g, at(e), 'an expired cloud is kept')
    ctx.ob('discard', not sat(NOT(e.g)), at(e), 'expired clouds are discarded only if %s' % show(e.g))


# ---- nodes --------------------------------------------------------------------------------------------------------
def pub_hook(I, st, e, d, O, obj):
    if O is None:
        O = I.lval(obj, st)
    v = I.freeze(I.rv(e['a'][0], st)) if False else I.rv(e['a'][0], st)
    try:
        loc = I.lval(e['a'][0], st)
    except Unsupported:
        loc = None
    I.emit('call', 'ros::Publisher::publish', st, e['l'], args=(v,), loc=loc, obj=O, val=O, decl=d)
    return None


def bound_args(ctx, N_, topic, f):
    """constants bound to the further parameters of the callback"""
    out = [None] * len(f.params)
    for e in N_.I.events:
        if e.kind == 'call' and e.name == 'ros::NodeHandle::subscribe' and strof(e.args[0]) == topic:
            for a in e.args:
                for t in terms_in(a, 'call'):
                    if 'bind' in str(t.args[0]):
                        xs = [x for x in t.args[1:]]
                        xs = [x for x in xs if not (isinstance(x, T) and x.op == 'func')]
                        xs = xs[1:]
                        for i, x in enumerate(xs[:len(out)]):
                            if isinstance(x, T) and x.op in ('true', 'false', 'num') or isinstance(x, N):
                                out[i] = x
    for i, x in enumerate(out):
        if isinstance(x, T) and x.op in ('true', 'false'):
            out[i] = TRUE if x.op == 'true' else FALSE
        if isinstance(x, N) and x.leaf is not None and x.leaf.op in ('true', 'false'):
            out[i] = TRUE if x.leaf.op == 'true' else FALSE
    return out


def lookup_of(t):
    """the transform lookups a value derives from"""
    return [x for x in subterms(t) if isinstance(x, T) and x.op == 'call' and x.args[0] == LOOKUP]


AX = {'x': 0, 'y': 1, 'z': 2}


def robot_terms(ts):
    """coordinate terms of looked-up poses: {term: (axis, lookup)}"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if not isinstance(x, T) or x in out:
                continue
            ax = None
            if x.op == 'call' and str(x.args[0]).startswith('tf2::Vector3::') and len(x.args) > 1:
                ax = str(x.args[0]).rsplit('::', 1)[-1].replace('get', '').lower()
                inner = x.args[1]
                if not any('getOrigin' in str(y.args[0]) for y in subterms(inner) if isinstance(y, T) and y.op == 'call'):
                    continue
            elif x.op == 'fld' and x.args[1] in AX and isinstance(x.args[0], T) and x.args[0].op == 'fld' and x.args[0].args[1] == 'translation':
                ax = x.args[1]
            if ax in AX:
                ls = lookup_of(x)
                if len(ls) == 1:
                    out[x] = (ax, ls[0])
    return out


def member_values(N_):
    """numeric members as the constructor leaves them"""
    out = {}
    for l in written(N_.I, N_.st):
        try:
            out[l] = N_.I.freeze(N_.I.read1(l, N_.st))
        except Unsupported:
            pass
    return out


class Callback(object):
    pass


def node(ctx, cls, topics):
    fresh_state()
    N_ = RosNode(ctx, cls, [])
    site = at(N_.ctor)
    pub = N_.publisher('map_local')
    mem = member_values(N_)
    P = N_.params
    for n in ('z_min', 'z_max', 'global_frame', 'robot_frame', 'width', 'resolution', 'hz', 'accum_duration'):
        ctx.ob('parameters', n in P, site, 'no parameter %s' % n)
    accs = {}
    for topic, hold in topics:
        f = N_.callback(topic)
        fresh_state()
        h = cloud_hooks()
        h[ACC + '::push'] = quiet('pushed')
        h['ros::Publisher::publish'] = pub_hook
        args = bound_args(ctx, N_, topic, f)
        IN.int_terms.clear()
        IN.unsigned_terms.clear()
        hk = node_hooks()
        hk.update(h)
        I = ctx.interp(hooks=hk)
        r, st = I.run(f, args=args)
        C = Callback()
        C.I, C.f, C.st, C.N, C.topic, C.cls, C.mem, C.pub = I, f, st, N_, topic, cls, mem, pub
        C.name = '%s %s' % (cls, topic)
        ctx.part(cloud_in, C, hold, accs)
        ctx.part(output, C, accs)
    # separate buffers
    vals = list(accs.values())
    ctx.ob('hold-time', len(set(vals)) == len(vals), site, 'inputs share one buffer')


def ctor_hold(N_, acc):
    """hold time the constructor gives to an accumulator (last write)"""
    v = None
    for e in N_.I.events:
        if e.kind == 'store' and e.loc is not None:
            for g, l in cases(e.loc):
                if l.op == 'fld' and l.args[0] is acc and l.args[1].startswith('time'):
                    v = e.val
    return v


def callbacks_loc(o):
    return [t for g, t in cases(o if isinstance(o, N) else leaf(o))]


def cloud_in(ctx, C, hold, accs):
    I, f, N_ = C.I, C.f, C.N
    msg = par_msg(f, 0)
    site = at(f)
    push = [e for e in I.events if e.kind == 'call' and e.name == ACC + '::push']
    ctx.ob('accumulate', bool(push), site, '%s: clouds are not accumulated' % C.name)
    thrown = all_throws(I)
    all_g = FALSE
    for e in push:
        all_g = OR(all_g, exists_other(e.g, []))
        ctx.ob('accumulate', not e.loops, at(e), 'a cloud is accumulated repeatedly')
        for o in callbacks_loc(e.obj):
            prev = accs.setdefault(C.topic, o)
            ctx.ob('accumulate', prev is o, at(e), 'accumulated in several buffers')
            hv = ctor_hold(N_, o)
            want = N_.params.get(hold) if hold else None
            ok = hv is not None
            if ok:
                for g, t in cases(I.freeze(hv)):
                    if hold:
                        ok = ok and t is mk('param', hold) or 'param(%s)' % hold == show(t)
                    else:
                        ok = ok and t is ZERO
            ctx.ob('hold-time', ok, at(e), 'the buffer of %s is kept for %s' % (C.topic, show(I.freeze(hv)) if hv is not None else 'no set time'))
        v = e.args[0]
        stamp = msgf(I, v, 'stamp_', ty=None)
        base = v.leaf.args[0].val.base if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'recv' else getattr(v, 'base', None)
        pts = None
        b = base if isinstance(base, (N, T)) else None
        if b is None:
            raise Unsupported('accumulated value')
        for g, t in cases(I.freeze(b) if isinstance(b, N) else leaf(b)):
            gg = AND(e.g, g)
            if not sat(gg):
                continue
            if not (t.op == 'out' and t.args[0] == 'tf2::doTransform'):
                ctx.ob('accumulate', False, at(e), 'accumulates %s' % show(t)[:200])
                continue
            src, tr = t.args[2], t.args[4]
            if 'LaserProjection' in show(src) or 'projectLaser' in show(src):
                ctx.ob('accumulate', src.op == 'out' and 'projectLaser' in src.args[0] and any(x is msg for x in src.args), at(e), 'another scan than the received one is projected: %s' % show(src)[:300])
            else:
                ctx.ob('accumulate', src is msg, at(e), 'another cloud than the received one is transformed')
            lk = lookup_of(tr)
            ctx.ob('input-transform', tr in lk, at(e), 'moved by %s' % show(tr)[:200])
            if tr in lk:
                hdr = mk('fld', src, 'header')
                ctx.ob('input-transform', tr.args[2] is N_.params.get('global_frame'), at(e), 'moved to %s' % show(tr.args[2]))
                ctx.ob('input-transform', len(tr.args) > 4 and tr.args[3] is fl(hdr, 'frame_id') and tr.args[4] is fl(hdr, 'stamp'), at(e), 'moved from %s at %s' % (show(tr.args[3])[:100], show(tr.args[4])[:100] if len(tr.args) > 4 else 'no time'))
                ctx.entail('failed-transform', gg, NOT(throws_of(I, tr)), at(e), 'a cloud is accumulated although its transform failed')
            for s in leaves(stamp):
                ok = s is fl(t, 'header', 'stamp') or s is fl(src, 'header', 'stamp') or s is fl(msg, 'header', 'stamp')
                ctx.ob('accumulate', ok, at(e), 'the time of the cloud is %s' % show(s)[:200])
    ctx.entail('accumulate', NOT(OR(*thrown)), all_g, site, '%s: a received cloud is dropped' % C.name)


def all_throws(I):
    out = []
    for e in I.events:
        for v in dvars(e.g):
            if atoms[v].op == 'throws':
                out.append(bvar(atoms[v]))
    return list(dict.fromkeys(out))


def throws_of(I, tr):
    """atom of the failure of one lookup: by order of the lookups"""
    evs_ = [e for e in I.events if e.kind == 'call' and e.name == LOOKUP]
    n = 0
    seen = []
    for e in evs_:
        a = [x for x in (I.freeze(y) if isinstance(y, N) else y for y in e.args)]
        key = tuple(z.leaf if isinstance(z, N) else z for z in a)
        if tuple(tr.args[2:2 + len(key)]) == key:
            return bvar(mk('throws', LOOKUP, n))
        n += 1
    raise AnchorMissing('lookup of %s' % show(tr)[:100])


def output(ctx, C, accs):
    I, f, N_ = C.I, C.f, C.N
    msg = par_msg(f, 0)
    site = at(f)
    pubs = [e for e in I.events if e.kind == 'call' and e.name == 'ros::Publisher::publish' and any(t is C.pub for t in callbacks_loc(e.val))]
    ctx.ob('output', bool(pubs), site, '%s: the map is never published' % C.name)
    thrown = all_throws(I)
    calm = NOT(OR(*thrown)) if thrown else TRUE
    stamp = fl(msg, 'header', 'stamp')
    allp = FALSE
    for e in pubs:
        ctx.ob('output', not e.loops, at(e), 'published inside a loop')
        allp = OR(allp, exists_other(e.g, []))
    if not pubs:
        return
    e = pubs[-1]
    ctx.ob('output', len(pubs) == 1, at(e), 'published several times')
    # rate
    last = [s for s in I.events if s.kind == 'store' and s.val is not None and isinstance(s.val, (N, T)) and s.loc is not None and
            all(rootloc(l).op == 'this' for g, l in cases(s.loc)) and all(t is stamp for t in leaves(I.freeze(s.val) if isinstance(s.val, N) else leaf(s.val)))]
    ok = False
    for s in last:
        for g, l in cases(s.loc):
            iv = interval(N_)
            if iv is None:
                continue
            c = cmp_terms('<=', t_add(l, iv), stamp, False)
            if not sat(AND(allp, NOT(c))) and not sat(AND(exists_other(s.g, []), NOT(c))):
                ok = True
                ctx.entail('rate', AND(calm, c), exists_other(s.g, []), at(s), 'the time of the output is not remembered')
                ctx.entail('rate', AND(calm, c), allp, at(e), 'no map is published although the interval has passed')
                ctx.entail('rate', allp, exists_other(s.g, []), at(s), 'the time of the output is not remembered')
    ctx.ob('rate', ok, at(e), 'the map is published more often than the rate allows')
    # map
    v = e.args[0]
    M = e.loc.leaf if isinstance(e.loc, N) else e.loc
    if M is None:
        raise Unsupported('published map')
    raw = {n: msgf(I, v, 'info', n) for n in ('width', 'height', 'resolution')}
    cn = Canon(C, raw)
    can = cn.map
    W, H, R = (can(raw[n]) for n in ('width', 'height', 'resolution'))
    ctor_info(ctx, C, M, cn)
    O = {a: can(msgf(I, v, 'info', 'origin', 'position', a)) for a in 'xyz'}
    q = {a: msgf(I, v, 'info', 'origin', 'orientation', a) for a in 'xyzw'}
    rob = robot_terms([t for a in 'xy' for t in leaves(O[a])] + [t for x in I.events if x.kind == 'store' for t in list(dterms(x.g))[:0]])
    ex = Rat()
    for a, D in (('x', W), ('y', H)):
        us = [u for t in leaves(O[a]) for u in subterms(t) if isinstance(u, T) and rounding(u) is not None]
        ps = [t for t, (ax, lk) in rob.items() if ax == a]
        good = False
        for u in dict.fromkeys(us):
            for p in ps:
                okq, _ = same(ex, leaf(rounding(u)), lift2c(lambda r, x: t_mul(x, IN_inv(r)), R, leaf(p)))
                if not okq:
                    continue
                want = liftn(lambda xs: t_sub(t_mul(u, xs[0]), t_mul(num(Fraction(1, 2)), t_mul(xs[0], xs[1]))), [R, D])
                ok2, why = same(ex, O[a], want)
                good = good or ok2
        ctx.ob('window', good, at(e), 'the window starts at %s = %s' % (a, show(O[a])[:300]))
    for t, (ax, lk) in rob.items():
        ctx.ob('robot-pose', lk.args[2] is N_.params.get('global_frame') and lk.args[3] is N_.params.get('robot_frame'), at(e), 'the window follows %s' % show(lk)[:200])
        ctx.entail('failed-transform', e.g, NOT(throws_of(I, lk)), at(e), 'the map is published although the pose of the robot is unknown')
    ctx.ob('window', bool(rob), at(e), 'the window does not follow the robot')
    for a in 'xyz':
        okz = all(t in (ZERO, fl(M, 'info', 'origin', 'orientation', a)) for t in leaves(q[a]))
        ctx.ob('window', okz, at(e), 'the map is rotated')
    ctx.ob('window', all(t is ONE for t in leaves(q['w'])), at(e), 'the orientation is not set')
    cells(ctx, C, M, e, cn, O, W, H, R, accs)


def IN_inv(r):
    return t_fdiv(ONE, r)


def rounding(u):
    """argument of a rounding to an integer"""
    if u.op == 'trunc':
        return u.args[0]
    if u.op == 'fn' and u.args[0] in ('floor', 'round', 'lround', 'nearbyint', 'rint', 'ceil', 'trunc'):
        return u.args[1]
    return None


def interval(N_):
    """member holding one over the rate"""
    hz = None
    for l, v in member_values(N_).items():
        for t in leaves(v):
            if show(t) in ('param(hz)^-1',):
                return l
            if t.op != 'param' and 'param(hz)' in show(t):
                hz = l
    return hz


class Canon(object):
    """members that the constructor sets to the same number as a field of the map are that field"""

    def __init__(self, C, raw):
        self.C = C
        stored = set()
        for e in C.I.events:
            if e.kind == 'store' and e.loc is not None:
                for g, l in cases(e.loc):
                    stored.add(l)
        self.mp = {}
        groups = {}
        for l, v in C.mem.items():
            if l in stored or isinstance(v, N) and v.leaf is None:
                continue
            t = v.leaf if isinstance(v, N) else v
            if t is None or not any(isinstance(x, T) and x.op == 'param' for x in subterms(t)) or not arithmetic_ok(t):
                continue
            groups.setdefault(t, []).append(l)
        for t, ls in groups.items():
            c = sorted(ls, key=lambda x: ('info' not in show(x), show(x)))[0]
            for l in ls:
                if l is not c:
                    self.mp[l] = c

    def map(self, v):
        return subst(v, self.mp) if self.mp else v


def arithmetic_ok(t):
    return 'str' not in t.op


def ctor_info(ctx, C, M, cn):
    """frame, size and resolution of the map"""
    N_ = C.N
    site = at(N_.ctor)
    P = N_.params
    rd = lambda *p: N_.I.freeze(N_.I.read1(fl(M, *p), N_.st))
    fr = rd('header', 'frame_id')
    gf = N_.I.freeze(N_.I.read1(P['global_frame'], N_.st)) if 'global_frame' in P else None
    ctx.ob('window', gf is not None and all(t is u for t in leaves(fr) for u in leaves(gf)), site, 'the map is in %s' % show(fr))
    for n, p in (('width', 'width'), ('height', 'width'), ('resolution', 'resolution')):
        v = rd('info', n)
        ctx.ob('window', all(show(bareu(t)) == 'param(%s)' % p for t in leaves(v)), site, '%s of the map is %s' % (n, show(v)))
    sz = N_.I.freeze(N_.I.read1(fl(M, 'data', '#size'), N_.st))
    want = lift2c(t_mul, rd('info', 'width'), rd('info', 'height'))
    ctx.ob('window', same(Rat(), sz, want)[0], site, 'the map has %s cells' % show(sz))


def bareu(t):
    while t.op in ('U', 'trunc', 'cast') and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def cells(ctx, C, M, pe, cn, O, W, H, R, accs):
    I, f, N_ = C.I, C.f, C.N
    data = fl(M, 'data')
    stores, clears, order = [], [], {id(e): i for i, e in enumerate(I.events)}
    for e in I.events:
        if e.kind == 'store' and e.loc is not None:
            ls = [(g, l) for g, l in cases(e.loc) if l.op == 'elem' and l.args[0] is data]
            if not ls:
                continue
            vs = [t for g, t in cases(I.freeze(e.val))]
            if all(t is ZERO for t in vs):
                clears.append((e, ls))
            else:
                stores.append((e, ls, vs))
        elif e.kind == 'call' and e.name == 'std::fill' and any(t.op == 'it' and t.args[0] is data for t in callbacks_loc(e.args[0])):
            clears.append((e, 'fill'))
        elif e.kind in ('assign', 'resize', 'push', 'clear', 'erase') and e.obj is not None and any(t is data for t in callbacks_loc(e.obj)):
            if e.kind == 'assign':
                clears.append((e, None))
            else:
                ctx.ob('cleared', False, at(e), 'the cells are changed by %s' % e.kind)
    site = at(pe)
    ctx.ob('cleared', bool(clears), site, 'cells of the last map stay')
    ctx.ob('marks', bool(stores), site, 'no cell is marked')
    WH = lift2c(t_mul, cn.map(W), cn.map(H))
    for e, ls in clears:
        for s, _, _ in stores:
            ctx.ob('cleared', order[id(e)] < order[id(s)], at(e), 'cells are cleared after they were marked')
        if ls == 'fill':
            n = [leaf(t.args[1]) if t.op == 'it' else leaf(t) for t in callbacks_loc(e.args[1])]
            ok = len(n) == 1 and (n[0].leaf is fl(data, '#size') or same(Rat(), cn.map(n[0]), WH)[0]) and all(t.args[1] is ZERO for t in callbacks_loc(e.args[0]))
            ctx.ob('cleared', ok and not e.loops, at(e), 'clears the cells up to %s' % ', '.join(show(x) for x in n))
            ctx.ob('cleared', all(t is ZERO for t in leaves(I.freeze(e.args[2]))), at(e), 'cells are set to %s' % show(e.args[2]))
            ctx.entail('cleared', exists_other(pe.g, []), exists_other(e.g, []), at(e), 'a map is published without clearing')
            continue
        if ls is None:
            n = cn.map(I.freeze(e.args[0]))
            ctx.ob('cleared', same(Rat(), n, WH)[0] or all(t is fl(data, '#size') for t in leaves(n)), at(e), 'clears %s cells' % show(n))
            ctx.ob('cleared', all(t is ZERO for t in leaves(I.freeze(e.args[1]))), at(e), 'cells are set to %s' % show(e.args[1]))
            ctx.entail('cleared', exists_other(pe.g, []), exists_other(e.g, []), at(e), 'a map is published without clearing')
            continue
        if len(e.loops) != 1:
            raise Unsupported('clearing loops')
        l = e.loops[0]
        for g, t in ls:
            k = t.args[1]
            n = fl(data, '#size')
            IN.int_terms.add(n)
            out = exit_guard(l)
            if any(n in subterms(atoms[v]) for v in dvars(out)):
                every_index(ctx, 'cleared', at(e), l, k, n)
            else:
                every_index(ctx, 'cleared', at(e), l, cn.map(k), WH.leaf, TRUE)
            ctx.entail('cleared', l.body_g, e.g, at(e), 'some cells are not cleared')
        ctx.entail('cleared', exists_other(pe.g, []), exists_other(OR(e.g, exit_guard(l)), []), at(e), 'a map is published without clearing')
    want_acc = dict.fromkeys(accs.values())
    seen = set()
    zr = None
    for e, ls, vs in stores:
        ctx.ob('marks', all(t is num(100) for t in vs), at(e), 'a cell is marked with %s' % show(I.freeze(e.val)))
        ctx.ob('marks', order[id(e)] < order[id(pe)], at(e), 'cells are marked after the map was published')
        if not e.loops:
            ctx.ob('marks', False, at(e), 'a cell is marked without a point')
            continue
        g = cn.map(e.g)
        li = e.loops[-1]
        # the point
        pts = {}
        for t in list(dterms(g)) + [x for _, l in ls for x in subterms(cn.map(leaf(l)).leaf)]:
            if isinstance(t, T) and t.op == 'elem' and t.args[0].op == 'fld' and str(t.args[0].args[1]).startswith('#pt:'):
                pts.setdefault(t.args[0].args[1][4:], set()).add(t)
        for a in 'xyz':
            ctx.ob('one-point', len(pts.get(a, ())) == 1, at(e), '%d values are used as %s of a point' % (len(pts.get(a, ())), a))
        if any(len(pts.get(a, ())) != 1 for a in 'xyz'):
            continue
        pts = {a: list(s)[0] for a, s in pts.items()}
        ks = {p.args[1] for p in pts.values()}
        cl = {p.args[0].args[0] for p in pts.values()}
        ctx.ob('one-point', len(ks) == 1 and len(cl) == 1, at(e), 'coordinates of different points are combined: %s' % ', '.join(show(p) for p in pts.values()))
        if len(ks) != 1 or len(cl) != 1:
            continue
        k, c = list(ks)[0], list(cl)[0]
        every_index(ctx, 'all-points', at(e), li, k, count_of(c))
        # clouds and buffers
        if c.op == 'elem' and len(e.loops) >= 2:
            every_index(ctx, 'all-points', at(e), e.loops[-2], c.args[1], sized(fl(c.args[0], '#size')))
            acc = c.args[0]
        else:
            ctx.ob('all-points', False, at(e), 'the points of %s are marked' % show(c))
            continue
        if acc.op == 'fld' and len(e.loops) == 2:
            # list of one accumulator
            seen |= {a for a in accs.values() if is_acc(acc, a)}
        elif len(e.loops) == 3 and any(t.op == 'ind' for t in subterms(acc) if isinstance(t, T)):
            b = acc
            while b.op == 'fld':
                b = b.args[0]
            if b.op != 'elem':
                raise Unsupported('buffer %s' % show(acc))
            every_index(ctx, 'all-points', at(e), e.loops[0], b.args[1], sized(fl(b.args[0], '#size')))
            seen |= {a for a in accs.values() if a.op == 'elem' and a.args[0] is b.args[0]}
        else:
            seen |= {a for a in accs.values() if is_acc(acc, a)}
        for a, b in zip(e.loops, e.loops[1:]):
            ctx.entail('all-points', a.body_g, b.entry.g, at(e), 'points of some clouds are left out')
        for l in e.loops:
            for o in I.events:
                if o.kind == 'return' and o.loops and l in o.loops:
                    ctx.ob('all-points', False, at(o), 'points are left out')
        # cell of the point
        ex = Rat()
        X = {}
        for a, D in (('x', W), ('y', H)):
            want = liftn(lambda xs: t_mul(t_sub(pts[a], xs[0]), IN_inv(xs[1])), [O[a], R])
            for t in list(dterms(g)) + [x for _, l in ls for x in subterms(cn.map(leaf(l)).leaf)]:
                if isinstance(t, T) and t.op == 'fn' and t.args[0] == 'floor' and same(ex, leaf(t.args[1]), want)[0]:
                    X[a] = t
                    break
            ctx.ob('point-cell', a in X, at(e), 'the cell of a point is not found by rounding its offset down (%s)' % a)
        if len(X) < 2:
            continue
        for h, l in ls:
            key = cn.map(leaf(l.args[1]))
            want = liftn(lambda xs: t_add(X['x'], t_mul(X['y'], xs[0])), [W])
            agree(ctx, 'point-cell', at(e), key, want, AND(g, h))
        # height band and window
        zs = robot_terms([t for v in dvars(g) for t in [atoms[v]]])
        zr = [t for t, (ax, lk) in zs.items() if ax == 'z']
        ctx.ob('height-band', len(zr) == 1, at(e), 'the height of the robot is not used')
        if len(zr) != 1:
            continue
        lk = zs[zr[0]][1]
        ctx.ob('robot-pose', lk.args[2] is N_.params.get('global_frame') and lk.args[3] is N_.params.get('robot_frame'), at(e), 'heights are relative to %s' % show(lk)[:200])
        dz = t_sub(pts['z'], zr[0])
        band = AND(cmp_terms('<=', N_.params['z_min'], dz, False), cmp_terms('<=', dz, N_.params['z_max'], False))
        inside = TRUE
        for a, D in (('x', W), ('y', H)):
            inside = AND(inside, cmp_terms('>=', X[a], ZERO, True), lift1(lambda d: cmp_terms('<', X[a], d, True), D))
        ctx.entail('height-band', g, band, at(e), 'a point outside of the height band is marked')
        ctx.entail('point-cell', g, inside, at(e), 'a point outside of the window is marked')
        IN.int_terms.add(X['x'])
        IN.int_terms.add(X['y'])
        ctx.entail('all-points', AND(cn.map(li.body_g), band, inside), g, at(e), 'a point is left out')
    if stores:
        for t, a in accs.items():
            ctx.ob('all-points', a in seen, site, 'the points of %s are not marked' % t)
        loops = list({l.id: l for e, _, _ in stores for l in e.loops[:1]}.values())
        for l in loops:
            ctx.entail('all-points', exists_other(pe.g, []), exists_other(OR(l.body_g, exit_guard(l)), []), site, 'a map is published without marks')


def sized(t):
    IN.int_terms.add(t)
    IN.unsigned_terms.add(t)
    return t


def is_acc(l, a):
    while l is not a and l.op in ('fld',):
        l = l.args[0]
    return l is a
