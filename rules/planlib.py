"""Planner node: fields by name, action servers as running or not, own functions as events."""
from rosmodel import *
UNITS = ['planner_cspace/src/planner_3d.cpp']
C = 'planner_cspace::planner_3d::Planner3dNode'
THIS = mk('this')
SRV = 'actionlib::SimpleActionServer::'
DONE, DOING, FINISHING = 0, 1, 2
GOING_WELL, IN_ROCK, PATH_NOT_FOUND, DATA_MISSING, INTERNAL_ERROR = 0, 1, 2, 3, 4
ENDS = {'setSucceeded': 'succeeded', 'setAborted': 'aborted', 'setPreempted': 'preempted'}


def running_loc(o):
    return mk('fld', o, '#running')


def srv_hooks():
    def active(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st)
        return tobool(I.freeze(I.read(lift1(lambda t: leaf(running_loc(t)), w), st)))

    def end(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st)
        was = tobool(I.freeze(I.read(lift1(lambda t: leaf(running_loc(t)), w), st)))
        I.emit('end', ENDS[d['n']], st, e['l'], obj=w, val=was, decl=d)
        I.write(lift1(lambda t: leaf(running_loc(t)), w), FALSE, st)
        return None

    def accept(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st)
        v = lift1(lambda t: leaf(mk('call', 'acceptNewGoal', t)), w)
        I.emit('accept', d['n'], st, e['l'], obj=w, val=v, decl=d)
        I.write(lift1(lambda t: leaf(running_loc(t)), w), TRUE, st)
        return v

    def feedback(I, st, e, d, O, obj):
        w = O if O is not None else I.lval(obj, st)
        was = tobool(I.freeze(I.read(lift1(lambda t: leaf(running_loc(t)), w), st)))
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        I.emit('call', d['qn'], st, e['l'], args=vs, obj=w, val=was, decl=d)
        return None
    h = {SRV + 'isActive': active, SRV + 'acceptNewGoal': accept, SRV + 'publishFeedback': feedback}
    for n in ENDS:
        h[SRV + n] = end
    for n in ('update', 'force_update'):
        h['diagnostic_updater::Updater::' + n] = silent
        h['diagnostic_updater::DiagnosticStatusWrapper::' + n] = silent
    return h


def silent(I, st, e, d, O, obj):
    return None


def own(name, havoc=(), args=()):
    """a function of the node as an event; the named members and arguments are arbitrary afterwards"""
    def hook(I, st, e, d, O, obj):
        vs = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        k = I.fresh()
        r = mk('call', name, k)
        I.emit('call', d['qn'], st, e['l'], args=vs, decl=d, val=leaf(r))
        for n in havoc:
            l = n if isinstance(n, T) else mk('fld', THIS, n)
            I.write(leaf(l), leaf(mk('after', k, name, l)), st)
        for a in args:
            I.write(I.lval(e['a'][a], st), leaf(mk('after', k, name, a)), st)
        return I.typed(leaf(r), I.et(e)) if 't' in e else leaf(r)
    return hook


def value(name):
    """a function of the node as a function of its arguments"""
    def hook(I, st, e, d, O, obj):
        vs = [I.freeze(I.argval(a, st)) for a in e['a']]
        return liftn(lambda xs: mk('call', name, *xs), vs)
    return hook


class Plan(object):
    """the node and its fields"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.N = RosNode(ctx, C, hooks=srv_hooks())
        rec = [r for r in ctx.p.records.values() if r.get('qn') == C]
        if not rec:
            raise AnchorMissing(C)
        self.fields = {f['n'] for f in rec[0]['fields']}
        self.act = mk('deref', self.f('act_'))
        self.actT = mk('deref', self.f('act_tolerant_'))
        self.acts = (self.act, self.actT)

    def f(self, name):
        if name not in self.fields:
            raise AnchorMissing('member %s' % name)
        return mk('fld', THIS, name)

    def fn(self, name):
        return self.ctx.one(C + '::' + name)

    def on_action(self, member, how):
        """function registered on an action server"""
        N_ = self.N
        r = set()
        for e in N_.I.events:
            if e.kind == 'call' and e.name == SRV + how:
                srv = N_.I.freeze(N_.I.read1(self.f(member), then(N_.I, e)))
                if any(u is t or u is mk('addr', t) for g, t in cases(e.obj) for h, u in cases(srv)):
                    r.update(funcs_in(e.args[0]))
        if len(r) != 1:
            raise AnchorMissing('%s of %s: %d functions' % (how, member, len(r)))
        return N_.func(r.pop())

    def run(self, f, quiet=(), values=(), hooks=None, args=None, **kw):
        h = srv_hooks()
        for q in quiet:
            n, hv, ar = q if isinstance(q, tuple) else (q, (), ())
            self.fn(n)
            h[C + '::' + n] = own(n, hv, ar)
        for q in values:
            h[C + '::' + q] = value(q)
        if hooks:
            h.update(hooks)
        return self.N.run(f, hooks=h, args=args, **kw)

    def b0(self, name):
        return tobool(leaf(self.f(name)))

    def run0(self, o):
        return tobool(leaf(running_loc(o)))


def val(I, st, loc, ty=None):
    v = I.read1(loc, st)
    if ty is not None:
        v = I.typed(v, ty)
    return I.freeze(v)


def bval(I, st, loc):
    return tobool(val(I, st, loc))


def then(I, e):
    """state at an event"""
    return IN.State(e.g, dict(e.mem))


def by(I, name):
    return [e for e in I.events if e.kind == 'call' and e.name.endswith('::' + name)]


def g_of(es):
    return OR(*[e.g for e in es]) if es else FALSE


def exactly(ctx, rule, es, cond, site, what, pre=TRUE):
    """something happens exactly if"""
    g = g_of(es) if not isinstance(es, N) else es
    ctx.entail(rule, AND(pre, g), cond, site, what + ' although it must not happen')
    ctx.entail(rule, AND(pre, cond), g, site, what + ' does not happen')


def same_bool(ctx, rule, got, want, site, what, pre=TRUE):
    got, want = tobool(got), tobool(want)
    ctx.entail(rule, AND(pre, got), want, site, what + ' is true')
    ctx.entail(rule, AND(pre, want), got, site, what + ' is false')


def same_val(ctx, rule, got, want, site, what, pre=TRUE):
    """guarded values of any kind, compared leaf by leaf"""
    bad = []
    for g, t in cases(got):
        for h, u in cases(want):
            x = AND(pre, g, h)
            if t is not u and sat(x):
                bad.append('%s instead of %s with %s' % (show(t)[:200], show(u)[:200], witness(x)[:300]))
    return ctx.ob(rule, not bad, site, '%s: %s' % (what, '; '.join(bad[:3])))


def once(ctx, rule, es, site, what, pre=TRUE):
    for i in range(len(es)):
        ctx.ob(rule, not es[i].loops, at(es[i]), what + ' repeatedly')
        for j in range(i + 1, len(es)):
            ctx.entail(rule, AND(pre, es[i].g, es[j].g), FALSE, at(es[j]), what + ' twice')


def ended(es, o, how=None):
    """guard: a server is told the end of its action"""
    g = FALSE
    for e in es:
        if e.kind == 'end' and (how is None or e.name == how):
            for h, t in cases(e.obj):
                if t is o:
                    g = OR(g, AND(e.g, h))
    return g


def ends_only_running(ctx, I, rule):
    for e in I.events:
        if e.kind == 'end':
            ctx.entail(rule, e.g, e.val, at(e), 'an action that does not run is ended')



def relocation():
    """relocateDiscretePoseIfNeeded: moves its cell and tells how"""
    def hook(I, st, e, d, O, obj):
        loc = I.lval(e['a'][0], st)
        args = tuple(I.freeze(I.argval(a, st)) for a in e['a'])
        k = I.fresh()
        r = I.typed(leaf(mk('status', k)), I.et(e))
        I.emit('call', d['qn'], st, e['l'], args=args, decl=d, val=leaf(mk('status', k)))
        I.write(loc, leaf(mk('moved', k)), st)
        return r
    return hook


def root(t):
    """the object a copied vector comes from, if all its components come from one"""
    if t.op != 'vec':
        return t
    rs = set()
    for i, c in enumerate(t.args):
        if not (isinstance(c, T) and c.op == 'elem' and isinstance(c.args[0], T) and c.args[0].op == 'fld'):
            return t
        k = c.args[1]
        k = k.args[0] if isinstance(k, T) and k.op == 'num' else k
        if k != i:
            return t
        rs.add(c.args[0].args[0])
    return rs.pop() if len(rs) == 1 else t


def unchanged(ctx, rule, I, st, locs, site, what, pre=TRUE, but=()):
    """the given locations keep their values"""
    for l in locs:
        if any(l is b or inside(l, b) for b in but):
            continue
        same_val(ctx, rule, I.freeze(I.read1(l, st)), I.freeze(leaf(l)), site, '%s: %s is' % (what, show(l)), pre)


def inside(l, b):
    while isinstance(l, T) and l.op in ('fld', 'elem'):
        if l is b:
            return True
        l = l.args[0]
    return l is b


def of_this(ls):
    r = []
    for l in ls:
        x = l
        while isinstance(x, T) and x.op in ('fld', 'elem', 'deref'):
            x = x.args[0]
        if x is THIS:
            r.append(l)
    return r
