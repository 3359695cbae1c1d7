"""Shared analysis of GridAstar::search: one value-flow run per instantiation."""
from core import *

GA = 'planner_cspace::GridAstar'
GM = 'planner_cspace::GridAstarModelBase'
BG = 'planner_cspace::BlockMemGridmap::operator[]'
UNIT = [os.path.join(VERIF, 'harness', 'astar.cpp')]
FMAX = TM.num(Fraction('3.4028234663852886e38'))


class Run(object):
    pass


def insts(ctx):
    fs = ctx.p.find(GA + '::search', lambda f: f.cls)
    ctx.need('GridAstar::search instantiations', len(fs), 2)
    return fs


def dims(ctx, f):
    r = ctx.p.records[f.cls]
    return int(r['ta'][0]), int(r['ta'][1])


def members(ctx, f):
    """the search object's members, found by type"""
    r = ctx.p.records[f.cls]
    m = {}
    m['g'] = field_of_type(ctx.p, r, lambda t: t.get('c') == 'rec' and ('Gridmap' in (t.get('qn') or '')), 'cost grid member')
    m['parents'] = field_of_type(ctx.p, r, lambda t: t.get('c') == 'rec' and strip_targs(t.get('qn') or '') in ASSOC, 'parent map member')
    m['open'] = field_of_type(ctx.p, r, lambda t: t.get('c') == 'rec' and 'priority_queue' in (t.get('qn') or ''), 'open list member')
    return m


_cache = {}


def run(ctx, f):
    if f.key in _cache:
        R = _cache[f.key]
        return R
    R = Run()
    R.f = f
    R.dim, R.non = dims(ctx, f)
    R.m = members(ctx, f)
    R.opaque_path = GA + '::findPath'
    R.I = ctx.interp(container_index=GRID, opaque={RPQ, R.opaque_path})
    R.ret, R.st = R.I.run(f)
    R.this = mk('this')
    R.gloc = mk('fld', R.this, R.m['g'])
    R.parloc = mk('fld', R.this, R.m['parents'])
    R.openloc = mk('fld', R.this, R.m['open'])
    R.rec = ctx.p.records
    R.exp = expand_model(ctx, R)
    _cache[f.key] = R
    return R


def vcomp(I, v, dim):
    arr = I.getfld(v, 'e_')
    return [I.typed(I.freeze(I._getelem(arr, num(i))), INT32) for i in range(dim)]


def keycomp(t, dim):
    """components of an index key leaf"""
    if t.op == 'vec':
        return list(t.args)
    return [mk('elem', mk('fld', t, 'e_'), num(i)) for i in range(dim)]


def is_elem_of(t):
    """t == elem(X, i): X's root"""
    return t.op == 'elem'


def elem_source(t):
    """for a term reading (fields of) an element of a local container, (container location, element
    term, field path); else None"""
    path = []
    x = t
    while x.op == 'fld' or x.op == 'elem':
        if x.op == 'elem' and x.args[0].op in ('phi', 'fld', 'var') and not (
                x.args[0].op == 'fld' and x.args[0].args[1] == 'e_'):
            return x, tuple(reversed(path))
        path.append(x.args[1])
        x = x.args[0]
    return None


def container_root(x):
    """the container location an element term's base denotes (through loop phis)"""
    b = x.args[0]
    if b.op == 'phi':
        b = b.args[1]
    while b.op == 'fld' and str(b.args[1]).startswith('#'):
        b = b.args[0]
    return b


def g_stores(R):
    return [e for e in R.I.events if e.kind == 'store' and e.loc.leaf is not None and e.loc.leaf.op == 'elem'
            and e.loc.leaf.args[0] is R.gloc] + \
           [e for e in R.I.events if e.kind == 'store' and e.loc.leaf is None and
            any(t.op == 'elem' and t.args[0] is R.gloc for t in leaves(e.loc))]


def containers_locals(R):
    pass


def pushes_to(R, root):
    """events adding an element to a container location"""
    r = []
    for e in R.I.events:
        if e.kind in ('push', 'insert') and e.obj is not None and any(t is root for t in leaves(e.obj)):
            r.append(e)
    return r


def queue_pushes(R):
    r = []
    for e in R.I.events:
        if e.kind == 'call' and e.obj is not None and any(t is R.openloc for t in leaves(e.obj)) and \
                e.name.split('::')[-1] in ('push', 'emplace'):
            r.append(e)
    return r


def queue_record(R, e):
    """(priority, raw cost, vector components) pushed by a queue push event"""
    I = R.I
    nm = e.name.split('::')[-1]
    f = queue_fields(R)
    if nm == 'push' or len(e.args) == 1:
        v = e.args[0]
        v = unfreeze(v)
        return (I.freeze(I.getfld(v, f[0])), I.freeze(I.getfld(v, f[1])), vcomp(I, I.getfld(v, f[2]), R.dim))
    # emplace: constructor arguments in order, mapped through the constructor of the element type
    c = ctor_of_elem(R, len(e.args))
    env = ctor_map(R, c, e.args)
    return (I.freeze(env[f[0]]), I.freeze(env[f[1]]), vcomp(I, env[f[2]], R.dim))


def unfreeze(v):
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'recv':
        return v.leaf.args[0].val
    return v


def queue_fields(R):
    """element record of the queue: (ordering key, other scalar, vector) field names; the key is
    the field its operator< compares"""
    if hasattr(R, 'qf'):
        return R.qf
    p = R.I.p
    rec = elem_record(R)
    sc = [f['n'] for f in rec['fields'] if rec['_tu'].types[f['t']]['c'] == 'flt']
    ve = [f['n'] for f in rec['fields'] if rec['_tu'].types[f['t']]['c'] == 'rec']
    lt = [f for f in p.find(rec['sqn'] + '::operator<') if f.cls == rec['name']]
    if len(sc) != 2 or len(ve) != 1 or not lt:
        raise AnchorMissing('queue element record')
    I = Interp(p)
    v, _ = I.run(lt[0])
    this = mk('this')
    keys = [s for s in sc if mk('fld', this, s) in subterms(v)]
    if len(keys) != 1:
        raise AnchorMissing('queue ordering key')
    R.lt = (lt[0], v, keys[0])
    R.qf = (keys[0], [s for s in sc if s != keys[0]][0], ve[0])
    return R.qf


def elem_record(R):
    r = R.I.p.records[R.f.cls]
    t = [f for f in r['fields'] if f['n'] == R.m['open']][0]
    qr = R.I.p.records[r['_tu'].types[f_t(t)]['rec']]
    for a in qr.get('ta', ()):
        if isinstance(a, str) and a in R.I.p.records:
            return R.I.p.records[a]
        if isinstance(a, dict) and 'rec' in a:
            return R.I.p.records[a['rec']]
    s = r['_tu'].types[f_t(t)]['s']
    m = [x for x in R.I.p.records.values() if x['sqn'] == GA + '::PriorityVec' and x['name'].startswith(R.f.cls)]
    if m:
        return m[0]
    raise AnchorMissing('queue element type of ' + s)


def f_t(f):
    return f['t']


def ctor_of_elem(R, n):
    rec = elem_record(R)
    cs = [f for f in R.I.p.funcs.values() if f.kind == 'ctor' and f.cls == rec['name'] and len(f.params) == n]
    if len(cs) != 1:
        raise AnchorMissing('constructor of the queue element')
    return cs[0]


def ctor_map(R, c, args):
    I = Interp(R.I.p)
    I.hooks = R.I.hooks
    this = mk('newobj')
    _, st = I.run(c, this=this, args=list(args))
    return {f['n']: I.read1(mk('fld', this, f['n']), st) for f in elem_record(R)['fields']}


def expand_model(ctx, R):
    """The relaxation step as two effects: candidate records pushed on a local container, and the
    application of its elements to grid, parent map and queue."""
    X = Run()
    I = R.I
    X.apply = []
    X.start = []
    X.close = []
    for e in g_stores(R):
        v = e.val
        kinds = set()
        for t in leaves(v):
            if t.op == 'num':
                kinds.add('close' if t.args[0] < 0 else 'const')
            else:
                kinds.add('val')
        src = [elem_source(t) for t in leaves(v)]
        if kinds == {'close'}:
            X.close.append(e)
        elif kinds == {'val'} and all(src) and len(set((s[0], s[1]) for s in src)) == 1:
            s = src[0]
            root = container_root(s[0])
            if root.op == 'par' or any(root is t for t in ()):
                X.start.append((e, s))
            else:
                X.apply.append((e, s, root))
        else:
            X.start.append((e, src[0] if src else None))
    return X


def loop_by_id(I, lid):
    for l in I.loop_info:
        if l.id == lid:
            return l
    return None


def flag_cause(I, p):
    """p: boolean loop phi term. (loop, guard under which an iteration turns it from false to true), or
    None unless it enters the loop false"""
    if p.op != 'phi':
        return None
    l = loop_by_id(I, p.args[0])
    if l is None or l.next is None or p.args[1] not in l.phis:
        return None
    try:
        init = I.freeze(I.read1(p.args[1], l.entry))
        nv = I.freeze(I.read1(p.args[1], l.next))
    except Exception:
        return None
    if init is not FALSE:
        return None
    b = bvar(p)
    if b.leaf is not None:
        return None
    return l, AND(l.next.g, restrict1(nv, b.var, False))


def bool_phis(g):
    return [atoms[v] for v in sorted(dvars(g)) if atoms[v].op == 'phi']


def qsize_zero(R, g):
    """the open list is empty, as far as the guard can say"""
    c = FALSE
    for v in dvars(g):
        for x in terms_in(atoms[v], 'call'):
            n = x.args[0].split('::')[-1]
            if 'priority_queue' in x.args[0] and n == 'size':
                c = OR(c, cmp_terms('<=', x, ZERO, True))
            elif 'priority_queue' in x.args[0] and n == 'empty':
                c = OR(c, bvar(x))
    return c
