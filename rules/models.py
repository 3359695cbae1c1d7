"""Summaries the rules use in place of inlining code that has a property (and check) of its own."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from interp import *
import interp as IN

GRID = {'planner_cspace::BlockMemGridmap', 'planner_cspace::BlockMemGridmapBase'}
VEC = 'planner_cspace::CyclicVecBase'


def vec_dims(I, t):
    """(DIM, NONCYCLIC) of a CyclicVecBase type entry"""
    r = I.p.records.get(t['rec'])
    ta = [x for x in r.get('ta', ())]
    return int(ta[0]), int(ta[1])


def _cyc(tag, lo):
    def hook(I, st, e, d, O, obj):
        t = I.et(obj)
        if t.get('c') == 'ptr':
            t = I.ty(t['pt'])
        if O is None:
            O = I.lval(obj, st)
        dim, non = vec_dims(I, t)
        if len(e['a']) == 1 and I.et(e['a'][0]).get('c') == 'rec':
            sz = I.rv(e['a'][0], st)
            arr = I.getfld(sz, 'e_')
            szs = [I.typed(I.freeze(I._getelem(arr, num(i))), INT32) for i in range(non, dim)]
        else:
            szs = [I.freeze(I.rv(a, st)) for a in e['a']]
        for k, i in enumerate(range(non, dim)):
            if k >= len(szs):
                break
            L = lift1c(lambda b: mk('elem', mk('fld', b, 'e_'), num(i)), O)
            old = I.typed(I.freeze(I.read(L, st)), INT32)

            def f(x, n):
                if x.op == tag and x.args[1] is n:
                    return x
                r = mk(tag, x, n)
                int_terms.add(r)
                if lo == 0:
                    add_fact(r, r)
                return r
            I.write(L, lift2c(f, old, szs[k]), st)
            I.emit('cyc', tag, st, e['l'], args=(old, szs[k]), obj=O)
        return None
    return hook


INT32 = {'c': 'int', 'sg': True, 'b': 32}


def grid_clear(I, st, e, d, O, obj):
    """clear(v): every element becomes v, the size stays (proved by P06)"""
    if O is None:
        O = I.lval(obj, st)
    v = I.freeze(I.rv(e['a'][0], st))
    I.emit('call', d['sqn'], st, e['l'], args=(v,), obj=O, decl=d)

    def set1(loc, weak):
        cur = I.read1(loc, st)
        kids = dict(cur.kids) if isinstance(cur, Node) else {}
        base = cur.base if isinstance(cur, Node) else cur
        new = Node(base, kids, (), leaf(mk('fill', I.leafx(v), ZERO)))
        I.write1(loc, new, st, weak)
    if O.leaf is not None:
        set1(O.leaf, None)
    else:
        for g, t in cases(O):
            set1(t, g)
    return None


def base_hooks():
    h = {}
    h[VEC + '::cycleUnsigned'] = _cyc('cycu', 0)
    h[VEC + '::cycle'] = _cyc('cycs', None)
    h['planner_cspace::BlockMemGridmap::clear'] = grid_clear
    h['planner_cspace::BlockMemGridmapBase::clear'] = grid_clear
    return h


RPQ = 'planner_cspace::reservable_priority_queue'
