"""Point clouds as values: content after moving, thinning, filtering and joining."""
from core import *
from numlib import *


def content(I, st, O):
    """points of a cloud at a location (header changes are not part of it)"""
    v = I.read(O, st) if isinstance(O, N) else I.read1(O, st)
    return bare(I.freeze(v) if isinstance(v, N) else (v.base if isinstance(v.base, N) else leaf(v.base)) if v.base is not None else I.freeze(v))


def bare(v):
    def f(t):
        if t.op == 'recv':
            b = getattr(t.args[0].val, 'base', None)
            if b is not None:
                return bare(b if isinstance(b, N) else leaf(b))
            if not isinstance(t.args[0].val, N) and set(t.args[0].val.kids) <= {'header'}:
                return leaf(mk('nopoints'))
        if t.op == 'default':
            return leaf(mk('nopoints'))
        return leaf(t)
    return lift1(f, v)


def target(I, st, e, obj, O):
    return O if O is not None else I.lval(obj, st)


def pointee(I, st, x):
    return I.deref(I.freeze(I.rv(x, st)))


def where(L):
    return L if isinstance(L, N) else leaf(L)


def valof(I, st, x):
    """content of an argument cloud (by reference or value)"""
    try:
        return content(I, st, I.lval(x, st))
    except Unsupported:
        return bare(I.freeze(I.rv(x, st)))


def p_move(I, st, e, d, O, obj):
    src = valof(I, st, e['a'][0])
    T_ = I.freeze(I.rv(e['a'][2], st))
    dst = I.lval(e['a'][1], st)
    r = liftn(lambda xs: mk('moved', *xs), [src, T_])
    I.emit('call', 'pcl::transformPointCloud', st, e['l'], args=(src, r, T_), loc=where(dst), val=r, decl=d)
    I.write(dst, r, st)
    return None


def p_setinput(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    p = I.freeze(I.rv(e['a'][0], st))
    I.write(field(O, '#in'), p, st)
    return None


def field(O, n):
    return lift1(lambda t: leaf(mk('fld', t, n)), where(O))


def p_thin(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    src = content(I, st, I.deref(I.freeze(I.read(field(O, '#in'), st))))
    dst = I.lval(e['a'][0], st)
    r = lift1(lambda t: leaf(mk('grid', t)), src)
    I.emit('call', d['sqn'], st, e['l'], args=(src,), loc=where(dst), val=r, decl=d)
    I.write(dst, r, st)
    return None


def p_skip(I, st, e, d, O, obj):
    for a in e['a']:
        I.rv(a, st)
    return None


def p_size(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    r = lift1(lambda t: leaf(ZERO if t.op == 'nopoints' else mk('fld', mk('fld', t, 'points'), '#size')), content(I, st, O))
    for g, t in cases(r):
        if t is not ZERO:
            IN.int_terms.add(t)
            IN.unsigned_terms.add(t)
    return I.typed(r, I.et(e)) if 't' in e else r


def p_empty(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)

    def f(t):
        if t.op == 'nopoints':
            return TRUE
        n = mk('fld', mk('fld', t, 'points'), '#size')
        IN.int_terms.add(n)
        IN.unsigned_terms.add(n)
        return cmp_terms('<=', n, ZERO, True)
    return lift1(f, content(I, st, O))


def p_index(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    k = I.freeze(I.rv(e['a'][0], st))
    return ('L', liftn(lambda xs: mk('elem', mk('fld', xs[0], 'points'), xs[1]), [where(O), k]))


def p_erase(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    v = I.freeze(I.rv(e['a'][0], st))
    for a in e['a'][1:]:
        I.rv(a, st)
    src = content(I, st, O)

    def f(s, t):
        if t.op == 'call' and t.args[0] == 'std::remove_if':
            return mk('kept', s, t.args[-1])
        return mk('erased', s, t)
    r = lift2c(f, src, v)
    I.emit('call', d['sqn'], st, e['l'], args=(src,), loc=where(O), val=r, decl=d)
    I.write(O, r, st)
    return None


def p_search(I, st, e, d, O, obj):
    """indices of the points within a radius"""
    O = target(I, st, e, obj, O)
    src = content(I, st, I.deref(I.freeze(I.read(field(O, '#in'), st))))
    c = I.freeze(I.rv(e['a'][0], st))
    r = I.freeze(I.rv(e['a'][1], st))
    k = mk('search', I.fresh())
    h = liftn(lambda xs: mk('hits', k, *xs), [src, c, r])
    I.emit('call', d['sqn'], st, e['l'], args=(c, r, src), loc=where(O), val=h, decl=d)
    for a, n in zip(e['a'][2:4], ('hits', 'dists')):
        I.write(I.lval(a, st), h if n == 'hits' else lift1(lambda t: leaf(mk('dists', t)), h), st)

    def f(t):
        z = mk('fld', t, '#size')
        IN.int_terms.add(z)
        IN.unsigned_terms.add(z)
        return leaf(z)
    return lift1(f, h)


def p_join(I, st, e, d, O, obj):
    O = target(I, st, e, obj, O)
    a, b = content(I, st, O), valof(I, st, e['a'][0])
    r = lift2c(lambda x, y: mk('joined', x, y), a, b)
    I.emit('call', d['sqn'], st, e['l'], args=(a, b), loc=where(O), val=r, decl=d)
    v = I.read(O, st)
    heads = None
    if not isinstance(v, N) and 'header' in v.kids:
        heads = v.kids['header']
    I.write(O, r, st)
    if heads is not None:
        I.write(field(O, 'header'), heads, st)
    return ('L', O)


def p_fromros(I, st, e, d, O, obj):
    src = I.freeze(I.rv(e['a'][0], st))
    dst = I.lval(e['a'][1], st)
    r = lift1(lambda t: leaf(mk('points', t)), src)
    I.emit('call', d['sqn'], st, e['l'], args=(src,), loc=where(dst), val=r, decl=d)
    I.write(dst, r, st)
    return None


def p_dotransform(I, st, e, d, O, obj):
    if len(e['a']) != 3:
        return NotImplemented
    src = I.freeze(I.rv(e['a'][0], st))
    t = I.freeze(I.rv(e['a'][2], st))
    dst = I.lval(e['a'][1], st)
    r = liftn(lambda xs: mk('moved', *xs), [src, t])
    I.emit('call', d['sqn'], st, e['l'], args=(src, t), loc=where(dst), val=r, decl=d)
    I.write(dst, r, st)
    return None


def pcl_hooks():
    return {'pcl::transformPointCloud': p_move, 'pcl::VoxelGrid::setInputCloud': p_setinput, 'pcl::VoxelGrid::filter': p_thin, 'pcl::VoxelGrid::setLeafSize': p_skip,
            'pcl::PointCloud::size': p_size, 'pcl::PointCloud::empty': p_empty, 'pcl::PointCloud::erase': p_erase,
            'pcl::KdTreeFLANN::setInputCloud': p_setinput, 'pcl::KdTreeFLANN::radiusSearch': p_search, 'pcl::PointCloud::operator+=': p_join, 'pcl::PointCloud::operator[]': p_index,
            'pcl::PointCloud::at': p_index, 'pcl::fromROSMsg': p_fromros, 'tf2::doTransform': p_dotransform}
