"""Iterators over the points of a sensor_msgs::PointCloud2: one position for all fields."""
from core import *
from numlib import *
from rosmodel import strof
C2 = 'sensor_msgs::PointCloud2'


def points_loc(l, name):
    return mk('fld', l, '#pt:' + name)


def count_of(l):
    t = mk('fld', l, '#points')
    IN.int_terms.add(t)
    IN.unsigned_terms.add(t)
    return t


def it_ctor(I, st, e, av, L):
    if len(av) < 2:
        return None
    n = strof(I.freeze(av[1]))
    if n is None:
        n = '?'
    c = av[0]
    O = I.freeze(I.lval(e['a'][0], st))
    return lift1c(lambda t: mk('it', points_loc(t, n), ZERO), O)


def it_end(I, st, e, d, O, obj):
    v = I.freeze(I.rv(obj, st) if O is None else I.read(O, st))

    def f(t):
        if t.op == 'it' and t.args[0].op == 'fld':
            return mk('it', t.args[0], count_of(t.args[0].args[0]))
        return mk('call', 'end', t)
    return lift1c(f, v)


def it_deref(I, st, e, d, O, obj):
    v = I.freeze(I.rv(obj, st) if O is None else I.read(O, st))
    return ('L', lift1c(lambda t: mk('elem', t.args[0], t.args[1]) if t.op == 'it' else mk('deref', t), v))


def it_inc(I, st, e, d, O, obj):
    L = O if O is not None else I.lval(obj, st)
    old = I.freeze(I.read(L, st))
    new = lift1c(lambda t: I.it_step(t, 1), old)
    I.store(L, new, st, e['l'])
    return ('L', L)


def it_add(I, st, e, d, O, obj):
    v = I.freeze(I.rv(obj, st) if O is None else I.read(O, st))
    k = I.freeze(I.rv(e['a'][-1], st))
    return I.arith('+', v, k, {'c': 'ptr'})


def it_ne(neg):
    def hook(I, st, e, d, O, obj):
        a = I.freeze(I.rv(obj, st) if O is None else I.read(O, st))
        b = I.freeze(I.rv(e['a'][-1], st))

        def f(x, y):
            if x.op == 'it' and y.op == 'it' and x.args[0].op == 'fld' and y.args[0].op == 'fld' and x.args[0].args[0] is y.args[0].args[0]:
                r = cmp_terms('==', x.args[1], y.args[1], True)
                return NOT(r) if neg else r
            r = bvar(mk('eqit', x, y))
            return NOT(r) if neg else r
        return lift2(f, a, b)
    return hook


def cloud_hooks():
    h = {}
    for c in ('sensor_msgs::PointCloud2Iterator', 'sensor_msgs::PointCloud2ConstIterator'):
        h[c + '::' + c.rsplit('::', 1)[-1]] = it_ctor
        h[c + '::end'] = it_end
        h[c + '::operator*'] = it_deref
        h[c + '::operator++'] = it_inc
        h[c + '::operator+'] = it_add
        h[c + '::operator!='] = it_ne(True)
        h[c + '::operator=='] = it_ne(False)
    return h
