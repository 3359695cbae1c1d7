"""Rule context: obligations, anchors, reports."""
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, HERE)
import build
from load import AnchorMissing, strip_targs
from interp import *
import interp as IN
import terms as TM
from terms import restrict1
from models import *


class Ctx(object):
    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.obs = []          # (rule, where, ok, detail)
        self.interps = []
        self.rules = []
        self.sites = {}
        self.stopped = []

    # one obligation
    def ob(self, rule, ok, where, detail='', fp=None):
        self.obs.append((rule, where, bool(ok), detail, fp))
        return bool(ok)

    def entail(self, rule, g, p, where, detail=''):
        """guard g must imply p"""
        bad = AND(g, NOT(p))
        ok = not sat(bad)
        if not ok:
            detail = (detail + ' ; reachable with ' + witness(bad))[:3000]
        return self.ob(rule, ok, where, detail)

    def need(self, what, n, minimum=1):
        """instance count below what was confirmed by hand: the analysis is broken, no verdict"""
        self.sites[what] = self.sites.get(what, 0) + n
        if n < minimum:
            raise AnchorMissing('%s: %d instance(s) found, at least %d expected' % (what, n, minimum))

    def part(self, f, *a, **kw):
        """one independent part of a property: what stops it does not stop the other parts"""
        try:
            return f(self, *a, **kw)
        except Exception as e:
            if os.environ.get('NN_DEBUG'):
                import traceback
                traceback.print_exc()
            self.stopped.append('%s: %s: %s' % (f.__name__, type(e).__name__, str(e)[:300]))

    def finish(self):
        if self.stopped:
            raise AnchorMissing('; '.join(self.stopped))

    def interp(self, *a, **kw):
        hooks = kw.pop('hooks', None)
        I = Interp(self.p, *a, **kw)
        I.hooks = base_hooks()
        if hooks:
            I.hooks.update(hooks)
        self.interps.append(I)
        return I

    def one(self, qn, pred=None):
        return self.p.one(qn, pred)


def rel(path):
    r = build.REPO.rstrip('/') + '/'
    return path[len(r):] if path.startswith(r) else path


def at(e):
    """location text of an event / function"""
    if isinstance(e, Event):
        return '%s:%d (%s)' % (rel(e.file), e.line, e.func)
    return '%s:%d (%s)' % (rel(e.file), e.line, e.qn)


def evs(I, kind=None, name=None, pred=None):
    r = []
    for e in I.events:
        if kind is not None and e.kind != kind:
            continue
        if name is not None and e.name != name and not (isinstance(name, (set, tuple)) and e.name in name):
            continue
        if pred is not None and not pred(e):
            continue
        r.append(e)
    return r


def calls(I, name):
    return evs(I, 'call', name)


def field_of_type(p, rec, pred, what):
    """name of the unique field of record whose type entry satisfies pred"""
    fs = [f['n'] for f in rec['fields'] if pred(rec['_tu'].types[f['t']])]
    if len(fs) != 1:
        raise AnchorMissing('%s: %d candidate fields' % (what, len(fs)))
    return fs[0]


def vecarg(I, v):
    """components of a vector-like value: list of N"""
    out = []
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'vec':
        return [leaf(x) for x in v.leaf.args]
    return None


def comp(v, i):
    """component i of a guarded 'vec' value"""
    return lift1c(lambda t: t.args[i] if t.op == 'vec' and i < len(t.args) else mk('elem', mk('fld', t, 'e_'), num(i)), v)


def eqv(a, b, isint=False):
    """guard under which guarded values a and b are equal"""
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'vec' and y.op == 'vec' and len(x.args) == len(y.args):
            return AND(*[eq_num(p, q) for p, q in zip(x.args, y.args)])
        if isint is not None:
            return cmp_terms('==', num_leaf(x), num_leaf(y), isint)
        return FALSE
    return lift2(f, a, b)


def numv(x):
    return leaf(num(x))


def cmpv(op, a, b, isint=None):
    def f(x, y):
        x, y = num_leaf(x), num_leaf(y)
        i = (is_int(x) and is_int(y)) if isint is None else isint
        return cmp_terms(op, unU(x), unU(y), i)
    return lift2(f, a, b)


def subterms(t, acc=None):
    """every T reachable in t (T or N)"""
    acc = set() if acc is None else acc
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        if isinstance(x, T):
            acc.add(x)
            if x.op == 'poly':
                for m, c in x.args[0]:
                    st.extend(a for a, _ in m)
            elif x.op == 'recv':
                for v in frozen_vals(x.args[0].val):
                    st.append(v)
            else:
                st.extend(a for a in x.args if isinstance(a, (T, N)))
                for a in x.args:
                    if isinstance(a, tuple):
                        st.extend(b for b in a if isinstance(b, (T, N)))
        elif isinstance(x, N):
            acc.add(x)
            if x.leaf is not None:
                st.append(x.leaf)
            else:
                st.append(atoms[x.var])
                st.append(x.hi)
                st.append(x.lo)
    return acc


def frozen_vals(v):
    if isinstance(v, N):
        return [v]
    out = []
    if v.base is not None:
        out += frozen_vals(v.base)
    for k in v.kids.values():
        out += frozen_vals(k)
    for i, g, x in v.arr:
        out.append(leaf(i) if isinstance(i, T) else i)
        out.append(g)
        out += frozen_vals(x)
    if v.ebase is not None:
        out += frozen_vals(v.ebase)
    return out


def terms_in(x, op=None, name=None):
    r = []
    for t in subterms(x):
        if isinstance(t, T) and (op is None or t.op == op) and (name is None or (t.args and t.args[0] == name)):
            r.append(t)
    return r


def rootloc(t):
    """root location of a location term"""
    while t.op in ('fld', 'elem') and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def isloc(t, *path):
    """location term equal to root.path..."""
    for n in reversed(path):
        if t.op != 'fld' or t.args[1] != n:
            return False
        t = t.args[0]
    return True


def exists_other(g, keep):
    """g with the atoms that mention a loop index other than keep quantified away"""
    for v in sorted(dvars(g)):
        if any(x.op == 'ind' and x not in keep for x in subterms(atoms[v]) if isinstance(x, T)):
            g = OR(restrict1(g, v, True), restrict1(g, v, False))
    return g
