"""ROS view: times and durations as real numbers, node handles without state, anchors by topic name."""
from core import *
from numlib import *


def strof(v):
    t = v.leaf if isinstance(v, N) else v
    if t is None:
        return None
    if t.op == 'str':
        return t.args[0]
    if t.op == 'ctor' and len(t.args) == 2 and isinstance(t.args[1], T):
        return strof(t.args[1])
    return None


def tnum(v):
    """seconds as a number"""
    def f(t):
        if t.op == 'recv':
            return mk('secs', t)
        if t.op == 'default':
            return ZERO
        return t
    return lift1c(f, v)


def objval(I, st, O, obj):
    if O is None:
        try:
            return tnum(I.freeze(I.rv(obj, st)))
        except Unsupported:
            O = I.lval(obj, st)
    return tnum(I.freeze(I.read(O, st)))


def t_ctor(I, st, e, av, L):
    if not av:
        return leaf(ZERO)
    v = [I.freeze(a) for a in av]
    if len(v) == 1:
        return tnum(v[0])
    return lift2c(lambda a, b: t_add(a, t_mul(b, num(Fraction(1, 10**9)))), v[0], v[1])


def t_bin(fn):
    def hook(I, st, e, d, O, obj):
        a = objval(I, st, O, obj)
        if not e['a']:
            return lift1c(t_neg, a)
        b = tnum(I.freeze(I.rv(e['a'][0], st)))
        return lift2c(fn, a, b)
    return hook


def t_cmp(op):
    def hook(I, st, e, d, O, obj):
        a = objval(I, st, O, obj)
        b = tnum(I.freeze(I.rv(e['a'][0], st)))
        return lift2(lambda x, y: cmp_terms(op, x, y, False), a, b)
    return hook


def t_asg(fn):
    def hook(I, st, e, d, O, obj):
        if O is None:
            O = I.lval(obj, st)
        a = tnum(I.freeze(I.read(O, st)))
        b = tnum(I.freeze(I.rv(e['a'][0], st)))
        I.write(O, lift2c(fn, a, b), st)
        return ('L', O)
    return hook


def t_id(I, st, e, d, O, obj):
    return objval(I, st, O, obj)


def t_iszero(I, st, e, d, O, obj):
    return lift1(lambda x: cmp_terms('==', x, ZERO, False), objval(I, st, O, obj))


def t_from(I, st, e, d, O, obj):
    if O is None:
        O = I.lval(obj, st)
    I.write(O, I.freeze(I.rv(e['a'][0], st)), st)
    return ('L', O)


def t_now(I, st, e, d, O, obj):
    r = mk('now', I.fresh())
    I.emit('call', d['sqn'], st, e['l'], args=(), val=leaf(r), decl=d)
    return leaf(r)


def time_hooks():
    h = {}
    for c in ('TimeBase', 'DurationBase', 'Time', 'Duration', 'WallTime', 'WallDuration', 'SteadyTime'):
        p = 'ros::%s::' % c
        h[p + 'operator+'] = t_bin(t_add)
        h[p + 'operator-'] = t_bin(t_sub)
        h[p + 'operator*'] = t_bin(t_mul)
        h[p + 'operator+='] = t_asg(t_add)
        h[p + 'operator-='] = t_asg(t_sub)
        for o in ('<', '>', '<=', '>=', '==', '!='):
            h[p + 'operator' + o] = t_cmp(o)
        h[p + 'toSec'] = t_id
        h[p + 'isZero'] = t_iszero
        h[p + 'fromSec'] = t_from
        h[p + 'now'] = t_now
        for b in ('TimeBase', 'DurationBase', 'Time', 'Duration', 'WallTime', 'WallDuration'):
            h[p + b] = t_ctor
    return h


def quiet_call(I, st, e, d, O, obj):
    vs = []
    for a in e['a']:
        try:
            vs.append(I.freeze(I.argval(a, st)))
        except Unsupported:
            vs.append(leaf(mk('opaque')))
    I.emit('call', d['sqn'], st, e['l'], args=tuple(vs), decl=d)
    return liftn(lambda xs: mk('call', d['sqn'], *xs), vs) if vs else leaf(mk('call', d['sqn'], I.fresh()))


def p_param(I, st, e, d, O, obj):
    name = I.freeze(I.rv(e['a'][0], st))
    n = strof(name)
    if n is None or len(e['a']) < 2:
        return NotImplemented
    L = I.lval(e['a'][1], st)
    v = leaf(mk('param', n))
    dv = I.freeze(I.rv(e['a'][2], st)) if len(e['a']) > 2 else leaf(mk('undef'))
    I.emit('param', n, st, e['l'], args=(dv,), loc=L, decl=d)
    has = bvar(mk('hasparam', n))
    if d['n'] != 'param':
        v = ite(has, v, I.freeze(I.typed(I.read(L, st), I.et(e['a'][1]))))
    I.write(L, v, st)
    return has


def p_has(I, st, e, d, O, obj):
    n = strof(I.freeze(I.rv(e['a'][0], st)))
    return bvar(mk('hasparam', n)) if n is not None else NotImplemented


def x_index(I, st, e, d, O, obj):
    """element of a parameter tree"""
    if O is None:
        O = I.lval(obj, st)
    k = I.freeze(I.rv(e['a'][0], st))
    return ('L', liftn(lambda xs: mk('elem', *xs), [O if isinstance(O, N) else leaf(O), k]))


def x_part(name):
    def hook(I, st, e, d, O, obj):
        if O is None:
            O = I.lval(obj, st)
        return ('L', lift1(lambda t: leaf(mk('fld', t, name)), O if isinstance(O, N) else leaf(O)))
    return hook


def xml_hooks():
    X = 'XmlRpc::XmlRpcValue::'
    h = {X + 'operator[]': x_index}
    for t, n in (('bool &', '#bool'), ('int &', '#int'), ('double &', '#num'), ('std::string &', '#str')):
        h[X + 'operator ' + t] = x_part(n)
    for n in ('getType', 'size', 'valid'):
        h[X + n] = x_value(n)
    return h


def x_value(name):
    def hook(I, st, e, d, O, obj):
        v = I.freeze(I.read(O, st)) if O is not None else I.freeze(I.rv(obj, st))
        r = lift1(lambda t: leaf(mk('fld', t, '#' + name)), v)
        for g, t in cases(r):
            IN.int_terms.add(t)
        return I.typed(r, I.et(e)) if 't' in e else r
    return hook


def node_hooks():
    h = time_hooks()
    h.update(xml_hooks())
    for n in ('subscribe', 'advertise', 'createTimer', 'advertiseService', 'serviceClient', 'createWallTimer'):
        h['ros::NodeHandle::' + n] = quiet_call
    for n in ('param', 'getParam', 'param_'):
        h['ros::NodeHandle::' + n] = p_param
    h['ros::NodeHandle::hasParam'] = p_has
    C = 'neonavigation_common::compat::'
    h[C + 'getCompat'] = lambda I, st, e, d, O, obj: leaf(ONE)
    h[C + 'checkCompatMode'] = lambda I, st, e, d, O, obj: None
    h[C + 'deprecatedParam'] = lambda I, st, e, d, O, obj: None
    return h


class RosNode(object):
    """anchors of a node: callbacks and publishers by topic"""

    def __init__(self, ctx, cls, methods=(), hooks=None):
        self.ctx, self.cls = ctx, cls
        ctor = ctx.one('%s::%s' % (cls, cls.rsplit('::', 1)[-1]), lambda f: not (f.params and 'const' in str(f.params[0]) and False))
        IN.int_terms.clear()
        IN.unsigned_terms.clear()
        h = node_hooks()
        if hooks:
            h.update(hooks)
        I = ctx.interp(hooks=h)
        _, st = I.run(ctor)
        self.I, self.st, self.ctor = I, st, ctor
        self.subs, self.pubs, self.timers, self.params, self.services = {}, {}, [], {}, {}
        self.scan(I)
        for m in methods:
            J = ctx.interp(hooks=h)
            J.run(ctx.one(cls + '::' + m))
            self.scan(J)

    def scan(self, I):
        for e in I.events:
            if e.kind == 'call' and e.name in ('ros::NodeHandle::subscribe', 'ros::NodeHandle::advertiseService'):
                fs = [f for a in e.args for f in funcs_in(a)]
                n = strof(e.args[0])
                if n is None:
                    ls = [strof(x) for x in terms_in(e.args[0], 'str')]
                    n = ls[0] if ls else None
                if n is not None and fs:
                    (self.subs if e.name.endswith('subscribe') else self.services).setdefault(n, fs[0])
            if e.kind == 'call' and e.name in ('ros::NodeHandle::createTimer', 'ros::NodeHandle::createWallTimer'):
                fs = [f for a in e.args for f in funcs_in(a)]
                if fs:
                    self.timers.append((fs[0], e))
            if e.kind == 'param':
                for g, t in cases(e.loc):
                    self.params.setdefault(e.name, t)
            if e.kind == 'store' and e.loc is not None:
                for t in terms_in(e.val, 'call') if isinstance(e.val, (N, T)) else ():
                    if t.args[0] == 'ros::NodeHandle::advertise':
                        n = strof(t.args[1])
                        for g, l in cases(e.loc):
                            self.pubs.setdefault(n, l)

    def callback(self, topic):
        """function called for a topic"""
        u = self.subs.get(topic)
        if u is None:
            raise AnchorMissing('callback of topic %s' % topic)
        return self.func(u)

    def func(self, u):
        fs = [f for k, f in self.ctx.p.funcs.items() if str(k) == u or f.qn == u.split('(')[0]]
        ex = [f for k, f in self.ctx.p.funcs.items() if str(k) == u]
        fs = ex or fs
        if len(fs) != 1:
            raise AnchorMissing('function %s' % u)
        return fs[0]

    def publisher(self, topic):
        l = self.pubs.get(topic)
        if l is None:
            raise AnchorMissing('publisher of topic %s' % topic)
        return l

    def run(self, f, hooks=None, args=None, **kw):
        IN.int_terms.clear()
        IN.unsigned_terms.clear()
        h = node_hooks()
        if hooks:
            h.update(hooks)
        I = self.ctx.interp(hooks=h, **kw)
        r, st = I.run(f, args=args)
        return I, r, st

    def published(self, I, loc):
        """messages published on a publisher: (event, guard, value)"""
        out = []
        for e in I.events:
            if e.kind == 'call' and e.name == 'ros::Publisher::publish' and e.val is not None:
                for g, t in cases(e.val):
                    if t is loc:
                        out.append((e, AND(e.g, g), e.args[0]))
        return out


def funcs_in(a):
    r = []
    for t in terms_in(a, 'func'):
        r.append(t.args[0])
    return r


FLT = {'c': 'flt', 'b': 64}


def msgf(I, v, *path, **kw):
    """field of a message value; numbers of default messages are zero"""
    for p in path:
        v = I.getfld(v, p)
    v = I.freeze(v)
    ty = kw.get('ty', FLT)
    if ty is None:
        return v
    return lift1c(lambda t: ZERO if t.op == 'default' else t, I.freeze(I.typed(v, ty)))


def written(I, st):
    """scalar locations of this written in a run"""
    out = []

    def walk(l, v):
        if isinstance(v, N):
            if v.leaf is not None and v.leaf.op == 'recv':
                walk(l, v.leaf.args[0].val)
                return
            out.append(l)
            return
        for k, x in v.kids.items():
            walk(mk('fld', l, k), x)
        for i, g, x in v.arr:
            if isinstance(i, T):
                walk(mk('elem', l, i), x)
        if v.base is not None and not v.kids and not v.arr:
            out.append(l)
    for l, v in st.mem.items():
        if rootloc(l).op == 'this':
            walk(l, v)
    return out


def par_msg(f, i=0):
    """the message a callback receives (by shared pointer or reference)"""
    t = f.tu.types[f.params[i]['t']]
    if t.get('c') == 'ref':
        t = f.tu.types[t['pt']]
    p = par(f, i)
    return mk('deref', p) if 'Ptr' in str(t.get('s', '')) or 'shared_ptr' in str(t.get('s', '')) or 'boost' in str(t.get('rec', '')) else p


def size_of(t):
    return mk('fld', t, '#size')


def same_msg(ctx, rule, e, I, v, want, g=TRUE, site=None):
    """a message value is that of a location"""
    got = I.freeze(v)
    bad = [t for h, t in cases(got) if sat(AND(g, h)) and t is not want]
    ctx.ob(rule, not bad, site or at(e), 'is ' + ', '.join(show(b)[:200] for b in bad))
