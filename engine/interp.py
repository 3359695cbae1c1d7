"""Flow-sensitive guarded value-flow analysis.

Each function body is interpreted once, abstractly, over the domain of terms.py: the state
maps locations to guarded values, branches are joined with gating conditions, loop-carried
locations become phi terms (linear induction variables are put in closed form), calls to
analysed code are inlined, and everything else is an uninterpreted (pure) term.  Nothing
is executed and no path is enumerated."""
from fractions import Fraction
from terms import *
import os
import terms as TM
from load import Program, Func, strip_targs, AnchorMissing


class Node(object):
    """structured record/array value"""
    __slots__ = ('base', 'kids', 'arr', 'ebase')

    def __init__(self, base, kids=None, arr=(), ebase=None):
        self.base = base            # record the value derives from
        self.kids = kids or {}      # fields overwritten since
        self.arr = arr              # elements overwritten since, oldest first
        self.ebase = ebase          # elements derive from this instead of base


class State(object):
    __slots__ = ('g', 'mem')

    def __init__(self, g, mem):
        self.g = g
        self.mem = mem

    def fork(self, g=None):
        return State(self.g if g is None else g, dict(self.mem))


class Event(object):
    __slots__ = ('kind', 'name', 'g', 'args', 'obj', 'file', 'line', 'func', 'stack', 'loops', 'mem', 'decl', 'seq',
                 'omp', 'val', 'trys', 'loc', 'argl')

    def where(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<%s %s @%s:%d>' % (self.kind, self.name, self.file, self.line)


class Loop(object):
    __slots__ = ('id', 'ind', 'line', 'file', 'kind', 'count', 'omp', 'entry_g', 'phis', 'cond', 'body_g',
                 'entry', 'head', 'next', 'exits')


class Frame(object):
    def __init__(self, func, tu, this):
        self.func = func
        self.tu = tu
        self.this = this
        self.vars = {}
        self.rets = []
        self.ret_ref = False
        self.depth = 0
        self.lambda_env = None
        self.file = func.file if func else ''
        self.name = func.qn if func else ''


class Unsupported(Exception):
    pass


INT_FN = {'round', 'floor', 'ceil', 'lround'}
int_terms = set()
bool_terms = set()


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'poly':
        return all(c.denominator == 1 and all(p > 0 and is_int(a) for a, p in m) for m, c in t.args[0])
    if t.op in ('trunc', 'idiv', 'imod', 'n8', 'nu', 'ind', 'U', 'bits'):
        return True
    if t.op == 'fld' and t.args[1] == '#size':
        return True
    if t.op == 'fn' and t.args[0] in INT_FN:
        return True
    return t in int_terms


def nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t in unsigned_terms or t.op in ('nu', 'ind'):
        return True
    if t.op == 'fld' and t.args[1] == '#size':
        return True
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(a) or p % 2 == 0 for a, p in m) for m, c in t.args[0])
    if t.op in ('idiv', 'imod'):
        return nonneg(t.args[0]) and nonneg(t.args[1])
    return False


TM.nonneg_hook[0] = nonneg


def pos_base(t):
    """container of an iterator or of a pointer to an element"""
    if t.op == 'it':
        return t.args[0]
    if t.op == 'addr' and t.args[0].op == 'elem':
        return t.args[0].args[0]
    return None


def pos_index(t):
    return t.args[1] if t.op == 'it' else t.args[0].args[1]


def pos_mk(t, i):
    return mk('it', t.args[0], i) if t.op == 'it' else mk('addr', mk('elem', t.args[0].args[0], i))


def pos_add(t, d):
    return pos_mk(t, t_add(pos_index(t), d)) if pos_base(t) is not None else t_add(t, d)


def unU(t):
    return t.args[0] if t.op == 'U' else t


def cmp_leaf(op, a, b):
    if a.op == 'U' or b.op == 'U':
        x, y = unU(a), unU(b)
        i = is_int(x) and is_int(y)
        nx = FALSE if a.op != 'U' else cmp_terms('<', x, ZERO, True)
        ny = FALSE if b.op != 'U' else cmp_terms('<', y, ZERO, True)
        base = cmp_terms(op, x, y, i)
        # both negative or both non negative: order preserved
        lt = op in ('<', '<=', '!=')
        gt = op in ('>', '>=', '!=')
        r = ite(nx, ite(ny, base, TRUE if gt else FALSE), ite(ny, TRUE if lt else FALSE, base))
        return r
    if a.op in NUMOPS_NOT or b.op in NUMOPS_NOT:
        # non numeric comparison
        if op in ('==', '!='):
            r = eq_leaf(a, b)
            return r if op == '==' else NOT(r)
    return cmp_terms(op, a, b, is_int(a) and is_int(b))


NUMOPS_NOT = {'addr', 'null', 'str', 'new', 'it', 'mapit', 'mapend', 'lambda', 'func', 'default', 'enumc'}
DISTINCT = {'str', 'null', 'addr', 'new', 'lambda', 'func'}


def eq_leaf(a, b):
    if a is b:
        return TRUE
    if a.op in ('num', 'poly', 'U') or b.op in ('num', 'poly', 'U'):
        return cmp_leaf('==', a, b)
    if a.op in DISTINCT and b.op in DISTINCT:
        return FALSE
    if a.op == 'true' or a.op == 'false' or b.op in ('true', 'false'):
        x = a if b.op in ('true', 'false') else b
        y = b if x is a else a
        if x.op in ('true', 'false'):
            return TRUE if x is y else FALSE
        v = bvar(x)
        return v if y is TT else NOT(v)
    if 'null' in (a.op, b.op):
        x = b if a.op == 'null' else a
        if x.op not in ('num', 'it', 'poly'):
            return NOT(tobool_leaf(x))
    if a.op == 'it' and b.op == 'it':
        if a.args[0] is b.args[0]:
            return cmp_terms('==', a.args[1], b.args[1], True)
    if a.op == 'vec' and b.op == 'vec' and len(a.args) == len(b.args):
        return AND(*[eq_num(x, y) for x, y in zip(a.args, b.args)])
    if a.id > b.id:
        a, b = b, a
    return bvar(mk('eq', a, b))


def eq_num(a, b):
    if a is b:
        return TRUE
    if isinstance(a, N) or isinstance(b, N):
        return lift2(eq_num, a if isinstance(a, N) else leaf(a), b if isinstance(b, N) else leaf(b))
    if a.op in NUMOPS_NOT or b.op in NUMOPS_NOT:
        return eq_leaf(a, b)
    return cmp_terms('==', a, b, is_int(a) and is_int(b))


def idx_eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('num', 'poly') or b.op in ('num', 'poly') or (is_int(a) and is_int(b)):
        return cmp_terms('==', a, b, True)
    return eq_leaf(a, b)


def lift1c(f, a):
    """lift unary leaf function returning T or N"""
    def g(t):
        r = f(t)
        return leaf(r) if isinstance(r, T) else r
    return lift1(g, a)


def lift2c(f, a, b):
    def g(x, y):
        r = f(x, y)
        return leaf(r) if isinstance(r, T) else r
    return lift2(g, a, b)


def liftn(f, args):
    """f(list of leaf terms)->T/N ; falls back to embedding when too many combinations"""
    tot = 1
    for a in args:
        tot *= len(leaves(a)) if isinstance(a, N) else 1
    if tot > 24:
        r = f([a.leaf if isinstance(a, N) and a.leaf is not None else a for a in args])
        return leaf(r) if isinstance(r, T) else r

    def rec(i, acc):
        if i == len(args):
            r = f(acc)
            return leaf(r) if isinstance(r, T) else r
        if not isinstance(args[i], N):
            return rec(i + 1, acc + [args[i]])
        return lift1(lambda t: rec(i + 1, acc + [t]), args[i])
    return rec(0, [])


def tobool_leaf(t):
    if t.op == 'true':
        return TRUE
    if t.op == 'false':
        return FALSE
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'null':
        return FALSE
    if t.op in ('addr', 'new', 'lambda', 'func'):
        return TRUE
    if t.op in ('poly', 'U'):
        return cmp_leaf('!=', t, ZERO)
    if t.op == 'default':
        return FALSE
    return bvar(t)


def tobool(a):
    if a is TRUE or a is FALSE:
        return a
    return lift1(tobool_leaf, a)


def num_leaf(t):
    if t.op == 'true':
        return ONE
    if t.op == 'false':
        return ZERO
    if t.op == 'default':
        return ZERO
    return t


def add(a, b):
    return lift2c(lambda x, y: t_add(num_leaf(x), num_leaf(y)), a, b)


def sub(a, b):
    return lift2c(lambda x, y: t_sub(num_leaf(x), num_leaf(y)), a, b)


def mul(a, b):
    return lift2c(lambda x, y: t_mul(num_leaf(x), num_leaf(y)), a, b)


def fdiv(a, b):
    def f(x, y):
        x, y = num_leaf(x), num_leaf(y)
        if x is ZERO and y.op not in ('num', 'inf', 'ninf'):
            ms = list(topoly(y).items())
            z = OR(*[cmp_terms('==', b, ZERO, False) for b, p in ms[0][0] if p > 0]) if len(ms) == 1 else cmp_terms('==', y, ZERO, False)
            return ite(z, leaf(NAN), leaf(ZERO))
        return leaf(t_fdiv(x, y))
    return lift2(f, a, b)


def trunc_div(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def idiv_leaf(x, y):
    x, y = unU(num_leaf(x)), unU(num_leaf(y))
    if isnum(x) and isnum(y) and y.args[0] != 0:
        return num(trunc_div(int(x.args[0]), int(y.args[0])))
    if y is ONE:
        return x
    t = mk('idiv', x, y)
    if isnum(y) and y.args[0] > 0:
        c = y.args[0]
        if nonneg(x):
            # c*t <= x <= c*t + c-1
            add_fact(t, t_sub(x, t_mul(y, t)))
            add_fact(t, t_sub(t_add(t_mul(y, t), num(c - 1)), x))
            add_fact(t, t)
        else:
            # |x - c t| <= c-1
            add_fact(t, t_add(t_sub(x, t_mul(y, t)), num(c - 1)))
            add_fact(t, t_sub(t_add(t_mul(y, t), num(c - 1)), x))
    return t


def imod_leaf(x, y):
    x, y = unU(num_leaf(x)), unU(num_leaf(y))
    if isnum(x) and isnum(y) and y.args[0] != 0:
        a, b = int(x.args[0]), int(y.args[0])
        return num(a - b * trunc_div(a, b))
    t = mk('imod', x, y)
    # C++ remainder: |t| < |y|; stated for positive y only when y is known positive (see rules)
    if nonneg(x):
        add_fact(t, t)
    return t


def fn_leaf(name, *xs):
    xs = [num_leaf(x) for x in xs]
    if name in ('sqrt',):
        x = xs[0]
        if isnum(x):
            import math
            v = x.args[0]
            if v >= 0:
                n, d = v.numerator, v.denominator
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return num(Fraction(rn, rd))
    if name in ('round', 'floor', 'ceil') and len(xs) == 1:
        x = xs[0]
        if isnum(x):
            import math
            v = x.args[0]
            if name == 'floor':
                return num(math.floor(v))
            if name == 'ceil':
                return num(math.ceil(v))
            return num(math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2)))
        if is_int(x):
            return x
    if name in ('cos',) and xs[0].op in ('poly',):
        p = topoly(xs[0])
        if max(p.items(), key=lambda kv: TM._mkey(kv[0]))[1] < 0:
            xs = [t_neg(xs[0])]
    if name == 'sin' and xs[0].op == 'poly':
        p = topoly(xs[0])
        if max(p.items(), key=lambda kv: TM._mkey(kv[0]))[1] < 0:
            return t_neg(mk('fn', 'sin', t_neg(xs[0])))
    if name == 'cos' and xs[0] is ZERO:
        return ONE
    if name in ('sin', 'tan', 'atan') and xs[0] is ZERO:
        return ZERO
    t = mk('fn', name, *xs)
    if name in ('floor', 'ceil', 'round') and len(xs) == 1:
        x = xs[0]
        if name == 'floor':
            add_fact(t, t_sub(x, t))
            add_fact(t, t_sub(t_add(t, ONE), x))
        elif name == 'ceil':
            add_fact(t, t_sub(t, x))
            add_fact(t, t_sub(t_add(x, ONE), t))
        else:
            h = num(Fraction(1, 2))
            add_fact(t, t_sub(t_add(x, h), t))
            add_fact(t, t_sub(t_add(t, h), x))
    return t


MATH1 = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'cos': 'cos', 'cosf': 'cos', 'sin': 'sin', 'sinf': 'sin', 'tan': 'tan',
         'tanf': 'tan', 'atan': 'atan', 'atanf': 'atan', 'acos': 'acos', 'asin': 'asin', 'acosf': 'acos',
         'asinf': 'asin', 'exp': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log', 'log10': 'log10', 'floor': 'floor',
         'floorf': 'floor', 'ceil': 'ceil', 'ceilf': 'ceil', 'round': 'round', 'roundf': 'round', 'lround': 'round',
         'lroundf': 'round', 'llround': 'round', 'lrint': 'rint', 'rint': 'rint', 'nearbyint': 'rint'}
MATH2 = {'atan2': 'atan2', 'atan2f': 'atan2', 'fmod': 'fmod', 'fmodf': 'fmod', 'copysign': 'copysign',
         'remainder': 'remainder'}

SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array', 'boost::array', 'std::initializer_list', 'boost::container::vector',
       'std::__cxx11::list', 'std::basic_string', 'std::__cxx11::basic_string')
ASSOC = ('std::unordered_map', 'std::map', 'std::multimap', 'std::set', 'std::unordered_set')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'boost::shared_array', 'std::__shared_ptr',
        'std::__shared_ptr_access', 'boost::scoped_ptr', 'boost::scoped_array', 'std::optional', 'boost::optional')

THROWERS = {
    'tf2_ros::Buffer::lookupTransform': 'tf2::TransformException',
    'tf2_ros::BufferInterface::lookupTransform': 'tf2::TransformException',
    'tf2_ros::Buffer::transform': 'tf2::TransformException',
    'tf2_ros::BufferInterface::transform': 'tf2::TransformException',
    'tf2::BufferCore::lookupTransform': 'tf2::TransformException',
}
IMPURE = {'ros::Time::now', 'ros::SteadyTime::now', 'ros::WallTime::now', 'rand', 'boost::chrono::high_resolution_clock::now',
          'boost::chrono::chrono::high_resolution_clock::now', 'std::chrono::_V2::system_clock::now', 'omp_get_wtime'}
NOEXIT = {'exit', 'abort', 'std::terminate', 'std::exit', 'std::abort', '_exit'}


def par_name(func, i):
    """name of the i-th parameter, made unique (members of a parameter pack share one)"""
    n = func.params[i]['n'] or 'arg%d' % i
    k = sum(1 for p in func.params[:i] if p['n'] == func.params[i]['n'])
    if k:
        n = '%s#%d' % (n, k)
    t = func.tu.types[func.params[i]['t']]
    t = func.tu.types[t['pt']] if t.get('c') == 'ref' else t
    if t.get('c') == 'flt' or (t.get('c') == 'rec' and str(t.get('rec')).rstrip().endswith(' float>')):
        return n + '~f'
    if t.get('c') == 'int' and not t.get('sg', True):
        return n + '~u'
    return n


def par(func, i):
    return mk('par', par_name(func, i))


class Interp(object):
    def __init__(self, prog, opaque=(), inline_only=None, max_depth=14, watch=None, container_index=(), pure_opaque=(),
                 assume_nonneg=(), devirt=True, max_nodes=6000):
        self.p = prog
        self.opaque = set(opaque)
        self.container_index = set(container_index)
        self.events = []
        self.mute = 0
        self.frames = []
        self.loops = []
        self.trys = []
        self.omp = []
        self.nloop = 0
        self.tmp_lid = 0
        self.loop_cache = {}
        self.algos = {}
        self.missed = ()
        self.nnew = 0
        self.ncall = {}
        self.max_depth = max_depth
        self.analysed = set()
        self.ncalls_inlined = 0
        self.devirt = devirt
        self.max_nodes = max_nodes
        self.notes = []
        self.callsites = 0
        self.assume = TRUE
        self.hooks = {}
        self.static_init = {}
        self.keep_mem = True
        self.uncaught = []
        self.loop_info = []
        self.track_index = False

    # ------------------------------------------------------------ types
    def ty(self, i, tu=None):
        tu = tu or self.frames[-1].tu
        if i is None or i < 0:
            return {'c': 'other', 's': '?'}
        return tu.types[i]

    def strip_ref(self, t, tu=None):
        while t.get('c') == 'ref':
            t = self.ty(t['pt'], tu)
        return t

    def et(self, e):
        t = self.ty(e.get('t'))
        return self.strip_ref(t)

    # ------------------------------------------------------------ memory
    def getfld(self, v, name, ty=None):
        if isinstance(v, Node):
            if name in v.kids:
                return v.kids[name]
            if v.base is None:
                return leaf(mk('undef'))
            return self.getfld(v.base, name)
        return lift1c(lambda t: self.fld_leaf(t, name), v)

    def fld_leaf(self, t, name):
        if t.op == 'default':
            if name == '#size':
                return ZERO
            return mk('default', str(t.args[0]) + '.' + name)
        if t.op == 'fill' and name == '#size':
            return t.args[1]
        if t.op == 'recv':
            v = t.args[0].val
            r = self.getfld(v, name)
            return self.freeze(r)
        if t.op == 'pair' and name in ('first', 'second'):
            a = t.args[0 if name == 'first' else 1]
            return a
        if t.op == 'mapent':
            if name == 'first':
                return t.args[1]
            if name == 'second':
                return mk('elem', t.args[0], t.args[1])
        if t.op == 'vec' and name == 'e_':
            return mk('vecarr', *t.args)
        if t.op == 'ini' and isinstance(t.args[0], tuple):
            for n, x in t.args[0]:
                if n == name:
                    return x
        return mk('fld', t, name)

    def getelem(self, v, idx):
        """idx: N"""
        return lift1c(lambda i: self._getelem(v, i), idx) if not isinstance(v, Node) else self._elem_node(v, idx)

    def _elem_node(self, v, idx):
        if idx.leaf is not None:
            return self._getelem(v, idx.leaf)
        parts = cases(idx)
        r = None
        for g, t in parts:
            x = self._getelem(v, t)
            r = x if r is None else self.merge_val(g, x, r)
        return r

    def _getelem(self, v, i):
        if isinstance(v, Node):
            eb = v.ebase if v.ebase is not None else v.base
            r = self._getelem(eb, i) if eb is not None else leaf(mk('undef'))
            # oldest to newest
            for (j, g, val) in v.arr:
                c = AND(g, idx_eq(i, j))
                if c is FALSE:
                    continue
                if c is TRUE:
                    r = val
                else:
                    r = self.merge_val(c, val, r)
            return r
        return lift1c(lambda t: self.elem_leaf(t, i), v)

    def elem_leaf(self, t, i):
        if t.op == 'fill':
            return t.args[0]
        if t.op == 'default':
            return mk('default', str(t.args[0]) + '[]')
        if t.op == 'vecarr' and i.op == 'num' and i.args[0] < len(t.args):
            return t.args[int(i.args[0])]
        if t.op == 'recv':
            return self.freeze(self._getelem(t.args[0].val, i))
        if t.op == 'lst' and i.op == 'num' and 0 <= i.args[0] < len(t.args):
            return t.args[int(i.args[0])]
        return mk('elem', t, i)

    def base_val(self, t, st):
        """value stored at root location term"""
        v = st.mem.get(t)
        if v is None:
            if t.op == 'deref' and t.args[0].op == 'addr':
                return self.read1(t.args[0].args[0], st)
            return self.untouched(t)
        return v

    def untouched(self, t):
        """value of a root location nothing was stored to"""
        if t.op == 'glob':
            v = self.static_init.get(t.args[0])
            if v is not None:
                return v
        return leaf(t)

    def read1(self, loc, st):
        op = loc.op
        if op == 'fld' and loc.args[0].op in LOCOPS:
            if loc.args[0].op == 'mapent' and loc.args[1] in ('first', 'second'):
                if loc.args[1] == 'second':
                    return self.read1(mk('elem', loc.args[0].args[0], loc.args[0].args[1]), st)
                return leaf(loc.args[0].args[1]) if isinstance(loc.args[0].args[1], T) else loc.args[0].args[1]
            return self.getfld(self.read1(loc.args[0], st), loc.args[1])
        if op == 'elem' and loc.args[0].op in LOCOPS:
            return self._getelem(self.read1(loc.args[0], st), loc.args[1])
        return self.base_val(loc, st)

    def read(self, L, st):
        """L: N over location terms"""
        if L.leaf is not None:
            return self.read1(L.leaf, st)
        r = None
        for g, t in cases(L):
            v = self.read1(t, st)
            r = v if r is None else self.merge_val(g, v, r)
        return r

    def write1(self, loc, v, st, weak=None):
        op = loc.op
        if op == 'deref' and loc.args[0].op == 'addr':
            return self.write1(loc.args[0].args[0], v, st, weak)
        if op == 'fld' and loc.args[0].op in LOCOPS:
            if loc.args[0].op == 'mapent':
                if loc.args[1] == 'second':
                    return self.write1(mk('elem', loc.args[0].args[0], loc.args[0].args[1]), v, st, weak)
            base = loc.args[0]
            cur = self.read1(base, st)
            if not isinstance(cur, Node):
                cur = Node(cur)
            kids = dict(cur.kids)
            if weak is not None:
                old = self.getfld(cur, loc.args[1])
                v = self.merge_val(weak, v, old)
            kids[loc.args[1]] = v
            return self.write1(base, Node(cur.base, kids, cur.arr, cur.ebase), st)
        if op == 'elem' and loc.args[0].op in LOCOPS:
            base = loc.args[0]
            cur = self.read1(base, st)
            if not isinstance(cur, Node):
                cur = Node(cur)
            i = loc.args[1]
            arr = cur.arr
            g = TRUE if weak is None else weak
            if g is TRUE:
                # drop dead entries with the same index
                arr = tuple(e for e in arr if e[0] is not i)
            elif isinstance(v, Node) or any(e[0] is i for e in arr):
                v = self.merge_val(g, v, self._getelem(cur, i))
                g = TRUE
                arr = tuple(e for e in arr if e[0] is not i)
            if len(arr) > 40:
                self.note('array chain too long at %s' % show(base))
                cur = Node(cur.base, cur.kids, (), leaf(mk('havoc', base, self.fresh())))
                arr = ()
            return self.write1(base, Node(cur.base, cur.kids, arr + ((i, g, v),), cur.ebase), st)
        if weak is not None:
            v = self.merge_val(weak, v, self.base_val(loc, st))
        st.mem[loc] = v

    def write(self, L, v, st):
        if L.leaf is not None:
            return self.write1(L.leaf, v, st)
        for g, t in cases(L):
            self.write1(t, v, st, weak=g)

    def fresh(self):
        self.nnew += 1
        return self.nnew

    def note(self, s):
        if not self.mute:
            self.notes.append(s)

    def merge_val(self, g, a, b):
        if a is b:
            return a
        if g is TRUE:
            return a
        if g is FALSE:
            return b
        if isinstance(a, N) and isinstance(b, N):
            r = self.ite_val(g, a, b)
            return r
        if isinstance(a, N):
            a = Node(a)
        if isinstance(b, N):
            b = Node(b)
        if a.base is None:
            base = b.base
        elif b.base is None or a.base is b.base:
            base = a.base
        else:
            base = self.ite_val(g, a.base, b.base)
        kids = {}
        for k in set(a.kids) | set(b.kids):
            kids[k] = self.merge_val(g, self.getfld(a, k), self.getfld(b, k))
        if a.arr is b.arr:
            arr = a.arr
        else:
            n = 0
            while n < len(a.arr) and n < len(b.arr) and self.same_ent(a.arr[n], b.arr[n]):
                n += 1
            arr = a.arr[:n] + tuple((i, AND(h, g), v) for i, h, v in a.arr[n:]) + \
                tuple((i, AND(h, NOT(g)), v) for i, h, v in b.arr[n:])
        eb = None
        if a.ebase is not None or b.ebase is not None:
            ea = a.ebase if a.ebase is not None else a.base
            ebb = b.ebase if b.ebase is not None else b.base
            eb = ea if ea is ebb else ebb if ea is None else ea if ebb is None else self.ite_val(g, ea, ebb)
        return Node(base, kids, arr, eb)

    def same_ent(self, x, y):
        return x[0] is y[0] and x[1] is y[1] and x[2] is y[2]

    def ite_val(self, g, a, b):
        # boolean/non boolean mix
        r = ite(g, a, b)
        if TM.nsize(r) > self.max_nodes:
            self.note('value diagram too large')
            r = leaf(mk('big', self.fresh()))
        return r

    def freeze(self, v):
        """value -> N with a term leaf"""
        if isinstance(v, N):
            return v
        return leaf(mk('recv', Frozen.get(self, v)))

    def merge_states(self, sts):
        sts = [s for s in sts if s is not None and s.g is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        """states have disjoint guards"""
        g = OR(a.g, b.g)
        sel = restrict(a.g, g)
        mem = {}
        for k in a.mem.keys() | b.mem.keys():
            va = a.mem.get(k)
            vb = b.mem.get(k)
            if va is vb:
                mem[k] = va
                continue
            if va is None:
                if k.op in ('var', 'tmp'):
                    mem[k] = vb
                    continue
                va = self.untouched(k)
            if vb is None:
                if k.op in ('var', 'tmp'):
                    mem[k] = va
                    continue
                vb = self.untouched(k)
            mem[k] = self.merge_val(sel, va, vb)
        return State(g, mem)

    # ------------------------------------------------------------ typed values
    def typed(self, v, t):
        """annotate a loaded value with its C++ type"""
        if isinstance(v, Node):
            return v
        c = t.get('c')
        if c == 'bool':
            return tobool(v)
        if c in ('int', 'enum'):
            sg = t.get('sg', True)

            def f(x):
                if x.op in ('num', 'poly', 'U', 'n8', 'nu'):
                    return x
                if x.op == 'default':
                    return ZERO
                if x.op in ('true', 'false'):
                    return num_leaf(x)
                if x.op in ('addr', 'null', 'str'):
                    return x
                if x not in int_terms:
                    int_terms.add(x)
                    if c == 'int' and not sg:
                        unsigned_terms.add(x)
                        if t.get('b') == 8:
                            add_fact(x, t_sub(num(255), x))
                    if c == 'int' and sg and t.get('b') == 8:
                        add_fact(x, t_sub(num(127), x))
                        add_fact(x, t_add(num(128), x))
                        bits8.add(x)
                return x
            return lift1c(f, v)
        if c == 'flt':
            return lift1c(lambda x: ZERO if x.op == 'default' else num_leaf(x), v)
        if c == 'ptr':
            return lift1c(lambda x: mk('null') if x.op == 'default' else x, v)
        return v

    # ------------------------------------------------------------ events
    def emit(self, kind, name, st, line, args=(), obj=None, decl=None, val=None, loc=None, argl=None):
        if self.mute:
            return None
        e = Event()
        e.kind = kind
        e.name = name
        e.g = st.g
        e.args = args
        e.obj = obj
        f = self.frames[-1]
        e.file = f.file
        e.line = line
        e.func = f.name
        e.stack = tuple((fr.name, fr.callline) for fr in self.frames[1:])
        e.loops = tuple(self.loops)
        e.omp = tuple(self.omp)
        e.mem = dict(st.mem) if self.keep_mem else None
        e.decl = decl
        e.val = val
        e.trys = tuple(self.trys)
        e.seq = len(self.events)
        e.loc = loc
        e.argl = argl
        self.events.append(e)
        return e

    # ------------------------------------------------------------ entry
    def run(self, func, this=None, args=None, mem=None, guard=TRUE, bind=None):
        """interpret func; returns (return value or None, final State or None)"""
        st = State(guard, dict(mem or {}))
        if this is None and func.cls and not func.static:
            this = mk('this')
        fr = Frame(func, func.tu, this)
        fr.callline = func.line
        self.frames.append(fr)
        self.analysed.add(func.key)
        try:
            for i, p in enumerate(func.params):
                t = self.ty(p['t'])
                name = 'arg%d' % i if not bind else bind[i]
                if args is not None and i < len(args) and args[i] is not None:
                    a = args[i]
                    if t['c'] == 'ref' and isinstance(a, T):
                        fr.vars[p['id']] = leaf(a)
                    else:
                        loc = mk('var', 0, p['id'], p['n'])
                        fr.vars[p['id']] = leaf(loc)
                        st.mem[loc] = leaf(a) if isinstance(a, T) else a
                else:
                    fr.vars[p['id']] = leaf(mk('par', par_name(func, i)))
            return self.run_body(func, st)
        finally:
            self.frames.pop()

    def run_body(self, func, st):
        fr = self.frames[-1]
        rt = self.ty(func.ret)
        fr.ret_ref = rt['c'] == 'ref'
        if func.kind == 'ctor' and func.inits is not None:
            st = self.ctor_inits(func, fr, st)
        end = self.stmt(func.body, st) if st is not None else None
        outs = list(fr.rets)
        if end is not None:
            outs.append((end, None))
        outs = [(s, v) for s, v in outs if s.g is not FALSE]
        if not outs:
            return None, None
        val = None
        s0, v0 = outs[0]
        val, cur = v0, s0
        for s, v in outs[1:]:
            g = OR(cur.g, s.g)
            sel = restrict(cur.g, g)
            if val is None:
                val = v
            elif v is not None:
                val = self.merge_val(sel, val, v)
            cur = self.merge2(cur, s)
        return val, cur

    def ctor_inits(self, func, fr, st):
        rec = self.p.records.get(func.cls)
        inited = set()
        for i in func.inits:
            if i.get('deleg'):
                self.eval_into(i['e'], leaf(fr.this), st)
                inited.add('*')
                continue
            if 'base' in i:
                self.eval_into(i['e'], leaf(fr.this), st)
                continue
            loc = mk('fld', fr.this, i['field'])
            t = self.ty(i['t'])
            inited.add(i['field'])
            if t['c'] == 'ref':
                L = self.lval(i['e'], st)
                self.write1(loc, lift1c(lambda x: mk('addr', x), L), st)
                continue
            self.eval_into(i['e'], leaf(loc), st, t)
        if rec and '*' not in inited:
            for f in rec.get('fields', ()):
                if f['n'] not in inited:
                    self.write1(mk('fld', fr.this, f['n']), leaf(mk('undef', f['n'])), st)
        return st

    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        if s is None or st is None:
            return st
        return getattr(self, 's_' + s['k'], self.s_unsupported)(s, st)

    def s_unsupported(self, s, st):
        raise Unsupported('statement %s line %s' % (s.get('cls', s['k']), s.get('l')))

    def s_block(self, s, st):
        for x in s['a']:
            if st is None:
                return None
            st = self.stmt(x, st)
        return st

    def s_null(self, s, st):
        return st

    def s_label(self, s, st):
        return self.stmt(s['s'], st)

    def s_expr(self, s, st):
        self.ev(s['e'], st, discard=True)
        return self.live(st)

    def live(self, st):
        return None if st is None or st.g is FALSE else st

    def s_decl(self, s, st):
        for v in s['vars']:
            self.declare(v, st)
            if st.g is FALSE:
                return None
        return st

    def varloc(self, v):
        return mk('var', len(self.frames), v['id'], v['n'])

    def declare(self, v, st):
        fr = self.frames[-1]
        t = self.ty(v['t'])
        if v.get('static'):
            loc = mk('glob', fr.name + '::' + v['n'])
            fr.vars[v['id']] = leaf(loc)
            if t.get('const') and 'init' in v:
                self.eval_into(v['init'], leaf(loc), st, t)
            return
        if 'bindings' in v:
            loc = self.varloc(v)
            fr.vars[v['id']] = leaf(loc)
            if t['c'] == 'ref':
                fr.vars[v['id']] = self.lval(v['init'], st)
            else:
                self.eval_into(v['init'], leaf(loc), st, t)
            base = fr.vars[v['id']]
            for i, b in enumerate(v['bindings']):
                e = b.get('e')
                nm = ('first', 'second')[i] if i < 2 else '#%d' % i
                if e and e.get('k') == 'mem':
                    nm = e['n']
                fr.vars[b['id']] = lift1c(lambda x: mk('fld', x, nm), base)
            return
        if t['c'] == 'ref':
            L = self.lval(v['init'], st)
            fr.vars[v['id']] = L
            return
        loc = self.varloc(v)
        fr.vars[v['id']] = leaf(loc)
        st.mem.pop(loc, None)
        if 'init' in v:
            self.eval_into(v['init'], leaf(loc), st, t)
        else:
            st.mem[loc] = self.undef_value(t, v['n'])

    def undef_value(self, t, n):
        if t.get('c') == 'arr':
            return Node(leaf(mk('undef', n)))
        return leaf(mk('undef', n))

    def split(self, c, st):
        """(true state, false state), pruned by the theory"""
        gt = AND(st.g, c)
        gf = AND(st.g, NOT(c))
        if gt is not FALSE and gf is not FALSE:
            if not sat(AND(self.assume, gt)):
                gt = FALSE
            elif not sat(AND(self.assume, gf)):
                gf = FALSE
        a = st.fork(gt) if gt is not FALSE else None
        b = st.fork(gf) if gf is not FALSE else None
        return a, b

    def s_if(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
            if st is None:
                return None
        if 'var' in s:
            self.declare(s['var'], st)
        c = self.cond(s['c'], st)
        if st.g is FALSE:
            return None
        a, b = self.split(c, st)
        if a is not None:
            a = self.stmt(s['t'], a)
        if b is not None and s.get('f'):
            b = self.stmt(s['f'], b)
        return self.merge_states([a, b])

    def s_return(self, s, st):
        fr = self.frames[-1]
        v = None
        if s.get('e'):
            if fr.ret_ref:
                v = self.lval(s['e'], st)
            else:
                v = self.rv(s['e'], st)
        if st.g is not FALSE:
            if len(self.frames) == 1 or fr.lambda_env is not None:
                self.emit('return', fr.name, st, s['l'], val=v)
            fr.rets.append((st, v))
        return None

    def s_break(self, s, st):
        self.jumps[-1][0].append(st)
        return None

    def s_continue(self, s, st):
        for j in reversed(self.jumps):
            if j[2] == 'loop':
                j[1].append(st)
                return None
        raise Unsupported('continue')

    jumps = []

    def s_try(self, s, st):
        ctx = {'types': [(h.get('t'), self.ty(h['t'])['s'] if 't' in h else None) for h in s['h']], 'throws': [],
               'line': s['l'], 'id': self.fresh()}
        self.trys.append(ctx)
        out = self.stmt(s['body'], st)
        self.trys.pop()
        outs = [out]
        pend = ctx['throws']       # [(State, typename, value)]
        for i, h in enumerate(s['h']):
            ht = ctx['types'][i][1]
            mine, rest = [], []
            for (ts, tn, tv) in pend:
                m = self.catches(ht, tn)
                if m == 'all':
                    mine.append(ts)
                elif m == 'part':
                    a = bvar(mk('exckind', ht, tn, ctx['id']))
                    ga, gb = AND(ts.g, a), AND(ts.g, NOT(a))
                    mine.append(ts.fork(ga))
                    rest.append((ts.fork(gb), tn, tv))
                else:
                    rest.append((ts, tn, tv))
            pend = rest
            hs = self.merge_states(mine)
            if hs is not None:
                if 'var' in h:
                    fr = self.frames[-1]
                    fr.vars[h['var']['id']] = leaf(mk('exc', ht))
                self.emit('catch', ht or '...', hs, h['l'])
                outs.append(self.stmt(h['body'], hs))
        for (ts, tn, tv) in pend:
            self.do_throw(ts, tn, s['l'])
        return self.merge_states(outs)

    EXC_BASES = {'tf2::LookupException': 'tf2::TransformException', 'tf2::ConnectivityException': 'tf2::TransformException',
                 'tf2::ExtrapolationException': 'tf2::TransformException', 'tf2::InvalidArgumentException': 'tf2::TransformException',
                 'tf2::TimeoutException': 'tf2::TransformException', 'tf2::TransformException': 'std::runtime_error',
                 'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
                 'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error'}

    def catches(self, ht, tn):
        if ht is None:
            return 'all'
        ht = ht.replace('const ', '').strip()
        t = tn
        while t:
            if t == ht:
                return 'all'
            t = self.EXC_BASES.get(t)
        t = ht
        while t:
            if t == tn:
                return 'part'
            t = self.EXC_BASES.get(t)
        return None

    def do_throw(self, st, tn, line):
        if st.g is FALSE:
            return
        if self.trys:
            self.trys[-1]['throws'].append((st, tn, None))
        else:
            self.emit('uncaught', tn, st, line)

    def s_switch(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
        c = self.rv(s['c'], st)
        body = s['body']
        items = []

        def flat(x, labels):
            if x is None:
                return
            if x['k'] == 'case':
                flat(x['s'], labels + [x['v']])
            elif x['k'] == 'default':
                flat(x['s'], labels + ['default'])
            else:
                items.append((labels, x))
        for x in (body['a'] if body['k'] == 'block' else [body]):
            flat(x, [])
        guards = {}
        taken = FALSE
        for li, (labels, x) in enumerate(items):
            g = FALSE
            for l in labels:
                if l == 'default':
                    continue
                v = self.rv(l, st)
                g = OR(g, AND(lift2c(eq_leaf, c, v), NOT(taken)))
                taken = OR(taken, g)
            guards[li] = g
        for li, (labels, x) in enumerate(items):
            if 'default' in labels:
                guards[li] = OR(guards[li], NOT(taken))
        live = None
        brk = []
        has_default = any('default' in l for l, _ in items)
        self.jumps.append((brk, None, 'switch'))
        for li, (labels, x) in enumerate(items):
            if labels:
                g = AND(st.g, guards[li])
                if g is not FALSE and sat(g):
                    ent = st.fork(g)
                    live = self.merge_states([live, ent])
            if live is not None:
                live = self.stmt(x, live)
        self.jumps.pop()
        outs = [live] + brk
        if not has_default:
            g = AND(st.g, NOT(taken))
            if g is not FALSE and sat(g):
                outs.append(st.fork(g))
        return self.merge_states(outs)

    def s_omp(self, s, st):
        d = s['d']
        if s.get('body') is None:
            return st
        self.omp.append((d, s['l'], tuple((c['n'], tuple(c['v'])) for c in s.get('cl', ()))))
        try:
            st = self.stmt(s['body'], st)
        finally:
            self.omp.pop()
        return st

    # ------------------------------------------------------------ loops
    @staticmethod
    def leading_exit(s):
        """for (;;) { if (!c) break; rest }  is  for (; c;) { rest }"""
        if 'var' in s or ('c' in s and not (s['c']['k'] in ('bool', 'int') and s['c'].get('v'))):
            return s
        b = s.get('body')
        if not b or b['k'] != 'block' or not b['a']:
            return s
        f = b['a'][0]
        if f['k'] != 'if' or f.get('f') or 'var' in f or 'init' in f:
            return s
        t = f['t']
        while t['k'] == 'block' and len(t['a']) == 1:
            t = t['a'][0]
        if t['k'] != 'break':
            return s
        c = {'k': 'un', 'o': '!', 'e': f['c'], 'l': f.get('l'), 't': f['c'].get('t')}
        return dict(s, c=c, body=dict(b, a=b['a'][1:]))

    def s_for(self, s, st):
        s = self.leading_exit(s)
        if 'init' in s:
            st = self.stmt(s['init'], st)
            if st is None:
                return None

        def cond(x):
            return self.cond(s['c'], x) if 'c' in s else TRUE

        def inc(x):
            if 'inc' in s:
                self.ev(s['inc'], x, discard=True)
            return self.live(x)
        return self.loop(s, st, cond, lambda x: self.stmt(s['body'], x), inc, 'for')

    def s_while(self, s, st):
        s = self.leading_exit(s)
        def cond(x):
            if 'var' in s:
                self.declare(s['var'], x)
            return self.cond(s['c'], x)
        return self.loop(s, st, cond, lambda x: self.stmt(s['body'], x), lambda x: x, 'while')

    def s_do(self, s, st):
        # body once, then while
        brk, cont = [], []
        self.jumps.append((brk, cont, 'loop'))
        o = self.stmt(s['body'], st)
        self.jumps.pop()
        o = self.merge_states([o] + cont)
        if o is not None:
            o = self.loop(s, o, lambda x: self.cond(s['c'], x), lambda x: self.stmt(s['body'], x), lambda x: x, 'do')
        return self.merge_states([o] + brk)

    def s_rangefor(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
        C = self.lval(s['range'], st)
        rt = self.et(s['range'])
        if st.g is FALSE:
            return None
        vt = self.ty(s['var']['t'])
        fr = self.frames[-1]
        assoc = self.container_kind(rt) == 'assoc'
        isset = rt.get('qn', '').endswith('set')
        n = self.csize(C, rt, st)
        ctx = {'i': None}

        def elem(i, x):
            if assoc:
                def f(c, t):
                    k = mk('key', c, t)
                    return k if isset else mk('mapent', c, k)
                return lift2c(f, C, i)
            return lift2c(lambda c, t: mk('elem', c, t), C, i)

        iv = mk('rfi', s['l'], self.fresh())
        st.mem[iv] = leaf(ZERO)

        def cond(x):
            i = x.mem[iv]
            return lift2c(lambda a, b: cmp_leaf('<', a, b), i, n)

        def body(x):
            i = x.mem[iv]
            L = elem(i, x)
            v = s['var']
            if 'bindings' in v:
                fr.vars[v['id']] = L
                for bi, b in enumerate(v['bindings']):
                    nm = ('first', 'second')[bi]
                    fr.vars[b['id']] = lift1c(lambda t: mk('fld', t, nm), L)
            elif vt['c'] == 'ref':
                fr.vars[v['id']] = L
                # element converted to another type: plain value
            else:
                loc = self.varloc(v)
                fr.vars[v['id']] = leaf(loc)
                x.mem[loc] = self.typed(self.read(L, x) if not isset else L, vt)
            return self.stmt(s['body'], x)

        def inc(x):
            x.mem[iv] = add(x.mem[iv], leaf(ONE))
            return x
        out = self.loop(s, st, cond, body, inc, 'rangefor')
        if out is not None:
            out.mem.pop(iv, None)
        return out

    def loop(self, s, st, cond, body, inc, kind):
        # 1. try complete unrolling for small constant trip counts
        u = self.try_unroll(st, cond, body, inc)
        if u is not False:
            return u
        # 2. loop-carried locations: reuse what an enclosing pass found, verified below
        key = (s['l'], id(s), tuple((fr.name, fr.callline) for fr in self.frames))
        c = self.loop_cache.get(key)
        if c is not None:
            r = self.loop_final(s, st, cond, body, inc, kind, c[0], c[1], c[2])
            if r is not False:
                return r[0]
        phis, ivs, mono = self.loop_discover(s, st, cond, body, inc)
        seed = {}
        for attempt in range(6):
            self.loop_cache[key] = (phis, ivs, mono)
            r = self.loop_final(s, st, cond, body, inc, kind, phis, ivs, mono)
            if r is not False:
                return r[0]
            if self.nomono and not self.missed:
                # seen as monotonic only without the closed forms
                mono = dict((l, 0 if l in self.nomono else d) for l, d in mono.items())
                continue
            seed.update((l, True) for l in self.missed)
            phis, ivs, mono = self.loop_discover(s, st, cond, body, inc, [l for l in seed if not any(p is not l and self.covered(l, {p: 1}) for p in seed)])
        raise Unsupported('loop did not stabilise at line %s' % s['l'])

    def new_lid(self):
        if self.mute:
            self.tmp_lid -= 1
            return self.tmp_lid
        self.nloop += 1
        return self.nloop

    def loop_ivs(self, st, ivs):
        """re-anchor cached induction variables at the current entry state"""
        out = {}
        for l, step in ivs.items():
            init = self.read1(l, st)
            if isinstance(init, N) and init.leaf is None:
                ls = leaves(init)
                if len(ls) > 40 or not (all(is_int(t) and t.op not in ('undef', 'it', 'true', 'false', 'U') for t in ls) or
                                       pos_base(ls[0]) is not None and all(pos_base(t) is pos_base(ls[0]) for t in ls)):
                    return None
                out[l] = (init, step)
                continue
            if not isinstance(init, N) or init.leaf.op in ('undef',):
                return None
            t = init.leaf
            out[l] = (t if t.op != 'U' else unU(t), step)
        return out

    def loop_final(self, s, st, cond, body, inc, kind, phis, steps, mono):
        ivs = self.loop_ivs(st, steps)
        self.nomono = []
        if ivs is None:
            self.missed = ()
            return False
        saved = (list(self.frames[-1].rets), self.nnew)
        jsave = [(list(a), list(b) if b is not None else None) for a, b, _ in self.jumps]
        tsave = [list(t['throws']) for t in self.trys]
        ev0, li0, nl0, nt0 = len(self.events), len(self.loop_info), self.nloop, len(self.notes)
        nc0 = dict(self.ncall)
        lid = self.new_lid()
        L = Loop()
        L.id = lid
        L.ind = mk('ind', lid)
        L.line = s['l']
        L.file = self.frames[-1].file
        L.kind = kind
        L.entry_g = st.g
        L.phis = dict((l, ivs.get(l)) for l in phis)
        L.cond = None
        L.omp = self.omp[-1] if self.omp else None
        L.entry = st
        if not self.mute:
            self.loop_info.append(L)
        head = self.phi_state(st, phis, ivs, lid)
        for l, dirn in mono.items():
            if dirn:
                init = self.read1(l, st)
                p = self.phi_term(l, lid)
                if isinstance(init, N) and init.leaf is not None and init.leaf.op not in ('undef',):
                    t = init.leaf.args[1] if init.leaf.op == 'it' else init.leaf
                    if t.op in ('true', 'false', 'addr', 'null', 'str', 'inf', 'ninf'):
                        continue
                    add_fact(p, t_sub(p, t) if dirn > 0 else t_sub(t, p))
        L.head = head
        head0 = head.fork()
        self.loops.append(L)
        try:
            nxt, exits = self.one_iter(head, cond, body, inc, L)
        finally:
            self.loops.pop()
        L.next = nxt
        L.exits = exits
        ok = True
        self.missed = ()
        if nxt is not None:
            ch = self.changed(head0, nxt)
            miss = [l for l in ch if not self.covered(l, phis)]
            if miss:
                ok = False
                self.missed = miss
            else:
                for l in ivs:
                    r = self.detect_iv(l, st, head0, nxt, lid)
                    if r is None or r != ivs[l]:
                        ok = False
                nomono = []
                for l, dirn in mono.items():
                    if dirn and self.detect_mono(l, st, head0, nxt, lid) != dirn:
                        nomono.append(l)
                self.nomono = nomono if ok else []
                ok = ok and not nomono
        if not ok:
            self.restore_frames(saved, jsave, tsave)
            del self.events[ev0:]
            del self.loop_info[li0:]
            del self.notes[nt0:]
            self.nloop = nl0
            self.ncall = nc0
            return False
        return (self.merge_states(exits),)

    def changed(self, head, nxt):
        ch = set()
        for k, v in nxt.mem.items():
            h = head.mem.get(k)
            if h is v:
                continue
            if h is None:
                if k.op in ('var', 'tmp', 'new', 'rfi', 'cap'):
                    continue
                h = self.untouched(k)
            self.diff(k, h, v, ch, nxt.g)
        return ch

    def eq_under(self, a, b, g):
        """values syntactically equal wherever g holds (modulo the theory)"""
        if a is b:
            return True
        if isinstance(a, N) and isinstance(b, N):
            if a.leaf is not None and b.leaf is not None:
                return False
            d = AND(g, lift2(lambda x, y: FALSE if x is y else TRUE, a, b))
            return not sat(d)
        return False

    def live_arr(self, arr, g):
        return tuple(e for e in arr if e[1] is TRUE or sat(AND(g, e[1])))

    def loop_discover(self, s, st, cond, body, inc, seed=()):
        self.mute += 1
        saved = (list(self.frames[-1].rets), self.nnew)
        jsave = [(list(a), list(b) if b is not None else None) for a, b, _ in self.jumps]
        tsave = [list(t['throws']) for t in self.trys]
        nc0 = dict(self.ncall)
        phis = dict((l, True) for l in seed)
        ivs = {}
        mono = {}
        lid = self.new_lid()
        try:
            noinv = set(seed)
            for rnd in range(10):
                head = self.phi_state(st, phis, {}, lid)
                head0 = head.fork()
                nxt, _ = self.one_iter(head, cond, body, inc, None)
                self.restore_frames(saved, jsave, tsave)
                self.ncall = dict(nc0)
                if nxt is None:
                    break
                ch = self.changed(head0, nxt)
                new = set(l for l in ch if not self.covered(l, phis))
                if new:
                    for l in new:
                        for p in [p for p in phis if p is not l and self.covered(p, {l: 1})]:
                            del phis[p]
                        phis[l] = True
                        noinv.add(l)
                    if rnd == 0:
                        noinv.clear()
                        noinv |= set(seed)
                    continue
                if rnd < 7:
                    inv = [l for l in phis if l not in noinv and self.invariant(l, st, head0, nxt)]
                    if inv:
                        for l in inv:
                            del phis[l]
                            noinv.add(l)
                        continue
                for l in list(phis):
                    r = self.detect_iv(l, st, head0, nxt, lid)
                    if r is not None:
                        ivs[l] = r[1]
                    else:
                        mono[l] = self.detect_mono(l, st, head0, nxt, lid)
                anchored = self.loop_ivs(st, ivs) if ivs and len(ivs) < len(phis) else None
                if anchored:
                    # locations that trail behind an induction variable
                    head = self.phi_state(st, phis, anchored, lid)
                    head0 = head.fork()
                    nxt, _ = self.one_iter(head, cond, body, inc, None)
                    self.restore_frames(saved, jsave, tsave)
                    self.ncall = dict(nc0)
                    if nxt is not None:
                        for l in list(phis):
                            if l not in ivs:
                                d = self.detect_trailing(l, st, nxt, lid)
                                if d is not None:
                                    ivs[l] = d
                                    mono.pop(l, None)
                break
        finally:
            self.mute -= 1
        return phis, ivs, mono

    def invariant(self, l, st, head, nxt):
        """the back edge provably leaves l as it was at loop entry"""
        if l.args and l.args[-1] == '#elems':
            return False
        init = self.read1(l, st)
        cur = self.read1(l, head)
        nv = self.read1(l, nxt)
        if not isinstance(cur, N):
            return False
        out = set()
        self.diff(l, cur, nv, out, nxt.g)
        if not out:
            return True
        if isinstance(init, N) and init.leaf is not None and init.leaf.op in ('true', 'false', 'num', 'null', 'enumc'):
            out = set()
            self.diff(l, init, nv, out, nxt.g)
            return not out
        return False

    def restore_frames(self, saved, jsave, tsave):
        self.frames[-1].rets[:] = saved[0]
        for (a, b), (x, y, _) in zip(jsave, self.jumps):
            x[:] = a
            if y is not None:
                y[:] = b
        for t, x in zip(tsave, self.trys):
            x['throws'][:] = t

    def one_iter(self, head, cond, body, inc, L):
        c = cond(head)
        if L is not None:
            L.cond = c
            L.body_g = AND(head.g, c)
        if head.g is FALSE:
            return None, []
        a, b = self.split(c, head)
        exits = [b]
        nxt = None
        if a is not None:
            brk, cont = [], []
            self.jumps.append((brk, cont, 'loop'))
            try:
                o = body(a)
            finally:
                self.jumps.pop()
            o = self.merge_states([o] + cont)
            if o is not None:
                nxt = inc(o)
            exits += brk
        return nxt, exits

    def try_unroll(self, st, cond, body, inc):
        x = st.fork()
        self.mute += 1
        try:
            c = cond(x)
        finally:
            self.mute -= 1
        if c.leaf is None:
            return False
        if c is FALSE:
            return st
        ev0 = len(self.events)
        saved = (list(self.frames[-1].rets), self.nnew)
        jsave = [(list(a), list(b) if b is not None else None) for a, b, _ in self.jumps]
        tsave = [list(t['throws']) for t in self.trys]
        ui0 = len(self.loop_info)
        nl0, nc0 = self.nloop, dict(self.ncall)
        cur = st.fork()
        exits = []
        for n in range(9):
            c = cond(cur)
            if c is FALSE:
                exits.append(cur)
                cur = None
                break
            if c is not TRUE or n == 8:
                break
            brk, cont = [], []
            self.jumps.append((brk, cont, 'loop'))
            try:
                o = body(cur)
            finally:
                self.jumps.pop()
            exits += brk
            o = self.merge_states([o] + cont)
            if o is not None:
                o = inc(o)
            cur = o
            if cur is None:
                break
        if cur is not None:
            # not a small constant loop: forget this attempt
            del self.events[ev0:]
            del self.loop_info[ui0:]
            self.nloop, self.ncall = nl0, nc0
            self.restore_frames(saved, jsave, tsave)
            return False
        return self.merge_states(exits)

    def diff(self, loc, a, b, out, g=TRUE):
        if a is b:
            return
        if isinstance(a, N) and isinstance(b, N):
            if g is not TRUE and self.eq_under(a, b, g):
                return
            out.add(loc)
            return
        if isinstance(a, N):
            a = Node(a)
        if isinstance(b, N):
            b = Node(b)
        if a.base is not b.base and not (a.base is not None and b.base is not None and g is not TRUE and
                                         self.eq_under(a.base, b.base, g)):
            out.add(loc)
            return
        if a.arr is not b.arr and g is not TRUE:
            a = Node(a.base, a.kids, self.live_arr(a.arr, g), a.ebase)
            b = Node(b.base, b.kids, self.live_arr(b.arr, g), b.ebase)
        if a.ebase is not b.ebase and not (a.ebase is not None and b.ebase is not None and g is not TRUE and
                                           self.eq_under(a.ebase, b.ebase, g)):
            out.add(mk('fld', loc, '#elems'))
        elif len(a.arr) != len(b.arr) or any(not self.same_ent(x, y) for x, y in zip(a.arr, b.arr)):
            # element writes: constant indices individually, else the whole array part
            ents = [e for e in b.arr if not any(self.same_ent(e, x) for x in a.arr)] + \
                   [e for e in a.arr if not any(self.same_ent(e, x) for x in b.arr)]
            if all(e[0].op == 'num' for e in ents):
                for e in ents:
                    x, y = self._getelem(a, e[0]), self._getelem(b, e[0])
                    self.diff(mk('elem', loc, e[0]), x, y, out, g)
            else:
                out.add(mk('fld', loc, '#elems'))
        for k in set(a.kids) | set(b.kids):
            self.diff(mk('fld', loc, k), self.getfld(a, k), self.getfld(b, k), out, g)

    def covered(self, l, phis):
        x = l
        while True:
            if x in phis:
                return True
            if x.op == 'elem' and mk('fld', x.args[0], '#elems') in phis:
                return True
            if x.op in ('fld', 'elem') and x.args[0].op in LOCOPS:
                x = x.args[0]
            else:
                return False

    def phi_term(self, l, lid):
        return mk('phi', lid, l)

    def phi_value(self, l, st, lid, ivs):
        old = self.read1(l, st) if l.args[-1] != '#elems' else None
        if l in ivs:
            init, step = ivs[l]
            if isinstance(init, N):
                return lift1c(lambda t: pos_add(t, t_mul(step, mk('ind', lid))), init)
            if pos_base(init) is not None:
                return leaf(pos_add(init, t_mul(step, mk('ind', lid))))
            return leaf(t_add(init, t_mul(step, mk('ind', lid))))
        p = self.phi_term(l, lid)
        # iterators keep their container
        if isinstance(old, N):
            ls = leaves(old)
            if ls and pos_base(ls[0]) is not None and all(pos_base(t) is pos_base(ls[0]) for t in ls):
                int_terms.add(p)
                return leaf(pos_mk(ls[0], p))
            if ls and all(t.op in ('true', 'false') for t in ls) or (old.leaf is None and all(t.op in ('true', 'false') for t in ls)):
                return bvar(p)
            if all(is_int(t) for t in ls) and all(t.op != 'undef' for t in ls):
                int_terms.add(p)
                if all(t in unsigned_terms for t in ls):
                    unsigned_terms.add(p)
        return leaf(p)

    def phi_state(self, st, phis, ivs, lid):
        h = st.fork()
        for l in sorted(phis, key=lambda x: x.id):
            if l.op == 'fld' and l.args[1] == '#elems':
                base = l.args[0]
                cur = self.read1(base, h)
                if isinstance(cur, N):
                    cur = Node(cur)
                self.write1(base, Node(cur.base, cur.kids, (), leaf(self.phi_term(l, lid))), h)
            else:
                self.write1(l, self.phi_value(l, st, lid, ivs), h)
        return h

    def mentions_loop(self, t, lid, seen=None):
        if isinstance(t, N):
            return any(self.mentions_loop(x, lid, seen) for x in leaves(t))
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return any(self.mentions_loop(x, lid, seen) for x in t)
            return False
        if seen is None:
            seen = set()
        if t in seen:
            return False
        seen.add(t)
        if t.op in ('phi', 'ind') and t.args[0] == lid:
            return True
        return any(self.mentions_loop(x, lid, seen) for x in t.args)

    def detect_iv(self, l, st, head, nxt, lid):
        if l.op == 'fld' and l.args[1] == '#elems':
            return None
        init = self.read1(l, st)
        if not isinstance(init, N):
            return None
        cur = self.read1(l, head)
        nv = self.read1(l, nxt)
        if not isinstance(cur, N) or not isinstance(nv, N):
            return None
        if init.leaf is None or cur.leaf is None:
            return self.detect_iv_cases(init, cur, nv, nxt, lid)
        nl = leaves(nv)
        if len(nl) != 1:
            # prune by guard
            nl = [t for g, t in cases(nv) if AND(g, nxt.g) is not FALSE and sat(AND(g, nxt.g))]
            if len(nl) != 1:
                return None
        a, b = cur.leaf, nl[0]
        if pos_base(a) is not None and pos_base(a) is pos_base(b):
            d = t_sub(pos_index(b), pos_index(a))
        elif a.op in ('it', 'addr', 'true', 'false', 'undef') or b.op in ('true', 'false', 'it', 'addr'):
            return None
        else:
            d = t_sub(unU(b), unU(a))
        if self.mentions_loop(d, lid) or d is ZERO:
            return None
        if d.op != 'num' and any(x.op not in ('fld', 'var', 'par', 'elem', 'num', 'poly') for x in [d]):
            return None
        return (init.leaf if init.leaf.op != 'U' else unU(init.leaf), d)

    def detect_trailing(self, l, st, nxt, lid):
        """step of a location whose next value is its start value advanced by the iterations done"""
        if l.args[-1] == '#elems':
            return None
        init, nv = self.read1(l, st), self.read1(l, nxt)
        if not isinstance(init, N) or not isinstance(nv, N) or init.leaf is None:
            return None
        nl = [t for g, t in cases(nv) if sat(AND(g, nxt.g))]
        if len(nl) != 1:
            return None
        a, b = init.leaf, nl[0]
        if pos_base(a) is not None and pos_base(a) is pos_base(b):
            a, b = pos_index(a), pos_index(b)
        elif a.op in ('it', 'addr', 'true', 'false', 'undef') or b.op in ('true', 'false', 'it', 'addr', 'undef', 'recv'):
            return None
        d = t_sub(unU(b), unU(a))
        i1 = t_add(mk('ind', lid), ONE)
        for step in (ONE, num(-1)):
            if d is t_mul(step, i1):
                return step
        return None

    def detect_iv_cases(self, init, cur, nv, nxt, lid):
        """integer with a guarded start value"""
        ls = leaves(init)
        if init.leaf is not None or len(ls) > 40:
            return None
        if pos_base(ls[0]) is not None:
            if any(pos_base(t) is not pos_base(ls[0]) for t in ls + leaves(cur) + leaves(nv)):
                return None
            d = lift2c(lambda a, b: t_sub(pos_index(b), pos_index(a)), cur, nv)
        else:
            if not all(is_int(t) and t.op not in ('undef', 'it', 'true', 'false', 'U') for t in ls):
                return None
            bad = ('undef', 'it', 'true', 'false', 'recv')
            if any(t.op in bad for t in leaves(cur)) or any(t.op in bad for t in leaves(nv)):
                return None
            d = lift2c(lambda a, b: t_sub(unU(b), unU(a)), cur, nv)
        ds = leaves(d)
        if len(ds) != 1:
            ds = list(set(t for g, t in cases(d) if sat(AND(g, nxt.g))))
            if len(ds) != 1:
                return None
        d = ds[0]
        if d.op != 'num' or d is ZERO:
            return None
        return (init, d)

    def detect_mono(self, l, st, head, nxt, lid):
        if l.op == 'fld' and l.args[1] == '#elems':
            return 0
        init = self.read1(l, st)
        cur = self.read1(l, head)
        nv = self.read1(l, nxt)
        if not all(isinstance(x, N) for x in (init, cur, nv)) or cur.leaf is None:
            return 0
        p = cur.leaf
        if p.op == 'it':
            pp = p.args[1]
            ds = []
            for t in leaves(nv):
                if t.op != 'it' or t.args[0] is not p.args[0]:
                    return 0
                ds.append(t_sub(t.args[1], pp))
            inits = [t.args[1] for t in leaves(init) if t.op == 'it']
            if len(inits) != len(leaves(init)):
                return 0
            p = pp
        else:
            if p.op in ('true', 'false'):
                return 0
            if any(t.op in ('true', 'false', 'undef', 'addr', 'null', 'str', 'it') for t in leaves(nv) + leaves(init)):
                return 0
            ds = [t_sub(t, p) for t in leaves(nv)]
            inits = leaves(init)
        if not ds or len(inits) != 1:
            return 0
        if all(d.op == 'num' and d.args[0] >= 0 for d in ds):
            return 1
        if all(d.op == 'num' and d.args[0] <= 0 for d in ds):
            return -1
        return 0

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        return tobool(self.freeze(self.rv(e, st)))

    def rv(self, e, st):
        """rvalue"""
        return self.ev(e, st)

    def ev(self, e, st, discard=False):
        k = e['k']
        if e.get('v') and k in ('var', 'mem', 'idx', 'glob'):
            L = self.lval(e, st)
            if L.leaf is not None and L.leaf.op == 'valbox':
                return L.leaf.args[0].val
            return self.typed(self.read(L, st), self.et(e))
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression %s %s line %s' % (k, e.get('cls'), e.get('l')))
        r = f(e, st)
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 'L':     # ('L', loc)
            if discard:
                return None
            return self.typed(self.read(r[1], st), self.et(e))
        return r

    def lval(self, e, st):
        """location (N over location terms); rvalues are materialised"""
        k = e['k']
        fr = self.frames[-1]
        if k == 'var':
            L = fr.vars.get(e['id'])
            if L is None and fr.lambda_env is not None:
                L = fr.lambda_env.get(e['id'])
            if L is None:
                L = leaf(mk('var', 0, e['id'], e['n']))
                fr.vars[e['id']] = L
            return L
        if k == 'glob':
            return leaf(self.global_loc(e['n'], st))
        if k == 'mem':
            if e.get('arrow'):
                b = self.ev(e['b'], st)
                B = self.deref(b)
            else:
                B = self.lval(e['b'], st)
            n = e['n']
            L = lift1c(lambda t: mk('fld', t, n), B)
            ft = self.field_type(e)
            if ft is not None and ft.get('c') == 'ref':
                v = self.read(L, st)
                return self.deref(v)
            return L
        if k == 'idx':
            bt = self.et(e['b'])
            i = self.ev(e['i'], st)
            if bt['c'] == 'ptr' and not (e['b']['k'] == 'cast' and e['b']['c'] == 'ArrayToPointerDecay'):
                b = self.ev(e['b'], st)
                B = self.deref(b)
            else:
                x = e['b']
                if x['k'] == 'cast':
                    x = x['e']
                B = self.lval(x, st)
            return self.elem_loc(B, i, st, e['l'], bt)
        if k == 'un' and e['o'] == '*':
            return self.deref(self.ev(e['e'], st))
        if k == 'this':
            return leaf(mk('addr', fr.this))
        if k == 'cast' and e.get('v'):
            return self.lval(e['e'], st)
        if k == 'cond' and e.get('v'):
            c = self.cond(e['c'], st)
            a = self.lval(e['a'], st)
            b = self.lval(e['b'], st)
            return ite(c, a, b)
        if e.get('v'):
            f = getattr(self, 'e_' + k)
            r = f(e, st)
            if isinstance(r, tuple):
                return r[1]
            if r is None:
                r = leaf(mk('undef', 'void'))
            return self.materialise(r, st)
        r = self.ev(e, st)
        if r is None:
            r = leaf(mk('undef', 'void'))
        return self.materialise(r, st)

    def materialise(self, v, st):
        # opaque record terms are their own location
        loc = mk('tmp', self.fresh())
        st.mem[loc] = v
        return leaf(loc)

    def field_type(self, e):
        r = self.p.records.get(e.get('cls'))
        if r is None or 'fields' not in r:
            return None
        for f in r['fields']:
            if f['n'] == e['n']:
                return self.ty(f['t'], r['_tu'])
        return None

    def global_loc(self, n, st):
        loc = mk('glob', n)
        if loc not in st.mem and n not in self.static_init:
            g = self.p.globals.get(n)
            self.static_init[n] = None
            if g and g.get('const') and g.get('init'):
                fr = Frame(None, g['_tu'], None)
                fr.name = n
                fr.file = g.get('file', '')
                fr.callline = 0
                self.frames.append(fr)
                self.mute += 1
                try:
                    s0 = State(TRUE, {})
                    v = self.ev(g['init'], s0)
                    self.static_init[n] = v
                except Unsupported:
                    pass
                finally:
                    self.mute -= 1
                    self.frames.pop()
        return loc

    def deref(self, v):
        if isinstance(v, Node):
            v = self.freeze(v)

        def f(t):
            if t.op == 'addr':
                return t.args[0]
            if t.op == 'it':
                return mk('elem', t.args[0], t.args[1])
            if t.op == 'mapit':
                return mk('mapent', t.args[0], t.args[1])
            if t.op == 'new':
                return t
            return mk('deref', t)
        return lift1c(f, v)

    def elem_loc(self, B, i, st, line, bt=None, name='[]'):
        if isinstance(i, Node):
            i = self.freeze(i)
        L = lift2c(lambda b, j: mk('elem', b, unU(num_leaf(j)) if j.op in ('U', 'true', 'false') else j), B, i)
        if self.track_index:
            self.emit('index', name, st, line, args=(i,), obj=B)
        return L

    # -------- literals
    def e_int(self, e, st):
        t = self.et(e)
        x = int(e['x'])
        if t['c'] == 'bool':
            return TRUE if x else FALSE
        return leaf(num(x))

    def e_flt(self, e, st):
        x = e['x']
        if x in ('inf', '+Inf', 'Inf'):
            return leaf(mk('inf'))
        if x in ('-inf', '-Inf'):
            return leaf(mk('ninf'))
        if 'nan' in x.lower():
            return leaf(mk('nan'))
        return leaf(num(Fraction(repr(float(x)))))

    def e_str(self, e, st):
        return leaf(mk('str', e['x']))

    def e_null(self, e, st):
        return leaf(mk('null'))

    def e_this(self, e, st):
        return leaf(mk('addr', self.frames[-1].this))

    def e_zero(self, e, st):
        t = self.et(e)
        return self.zero_of(t)

    def zero_of(self, t):
        c = t.get('c')
        if c == 'bool':
            return FALSE
        if c in ('int', 'flt', 'enum'):
            return leaf(ZERO)
        if c == 'ptr':
            return leaf(mk('null'))
        return leaf(mk('default', t.get('s', '')))

    def e_func(self, e, st):
        return leaf(mk('func', e['f']))

    def e_glob(self, e, st):
        L = leaf(self.global_loc(e['n'], st))
        return self.typed(self.read(L, st), self.et(e))

    def e_var(self, e, st):
        return self.typed(self.read(self.lval(e, st), st), self.et(e))

    def e_mem(self, e, st):
        return self.typed(self.read(self.lval(e, st), st), self.et(e))

    def e_idx(self, e, st):
        return self.typed(self.read(self.lval(e, st), st), self.et(e))

    def e_sizeof(self, e, st):
        return leaf(mk('sizeof', e['l']))

    def e_stmtexpr(self, e, st):
        return leaf(mk('undef', 'stmtexpr'))

    def e_unk(self, e, st):
        return leaf(mk('unk', e.get('cls'), e['l']))

    def e_arrcopy(self, e, st):
        return self.ev(e['e'], st)

    def e_delete(self, e, st):
        self.ev(e['e'], st)
        return None

    def e_throw(self, e, st):
        tn = self.ty(e['et'])['s'].replace('const ', '') if 'et' in e else 'rethrow'
        if 'e' in e and e['e']:
            self.ev(e['e'], st)
        self.emit('throw', tn, st, e['l'])
        s2 = st.fork()
        self.do_throw(s2, tn, e['l'])
        st.g = FALSE
        return leaf(mk('undef', 'throw'))

    def e_list(self, e, st):
        t = self.et(e)
        c = t.get('c')
        if c in ('int', 'flt', 'bool', 'ptr', 'enum'):
            if not e['a']:
                return self.zero_of(t)
            return self.ev(e['a'][0], st)
        loc = mk('tmp', self.fresh())
        self.eval_into(e, leaf(loc), st, t)
        return st.mem.pop(loc)

    def e_new(self, e, st):
        self.nnew += 1
        loc = mk('new', self.ty(e['at'])['s'], self.nnew)
        if e.get('n'):
            n = self.ev(e['n'], st)
            st.mem[loc] = Node(leaf(mk('undef', 'newarr')), {'#size': n})
        elif e.get('init'):
            self.eval_into(e['init'], leaf(loc), st, self.ty(e['at']))
        return leaf(mk('addr', loc))

    def e_cast(self, e, st):
        c = e['c']
        if e.get('v'):
            return ('L', self.lval(e['e'], st))
        if c == 'ArrayToPointerDecay':
            if e['e']['k'] == 'str':
                return self.ev(e['e'], st)
            L = self.lval(e['e'], st)
            return lift1c(lambda t: mk('addr', t), L)
        v = self.ev(e['e'], st)
        if c == 'ToVoid' or v is None:
            return v
        return self.convert(v, self.et(e['e']), self.et(e))

    def convert(self, v, ft, tt):
        if isinstance(v, Node):
            return v
        fc, tc = ft.get('c'), tt.get('c')
        if tc == 'bool':
            if fc in ('int', 'flt', 'enum'):
                return lift1(lambda t: tobool_leaf(t) if t.op in ('true', 'false', 'num') or t.op in NUMOPS_NOT else cmp_leaf('!=', t, ZERO), v)
            return tobool(v)
        if tc in ('int', 'enum'):
            if fc == 'flt':
                def f(x):
                    x = num_leaf(x)
                    if isnum(x):
                        return num(int(x.args[0]))
                    if is_int(x):
                        return x
                    t = mk('trunc', x)
                    # |x - t| < 1
                    add_fact(t, t_add(t_sub(x, t), ONE))
                    add_fact(t, t_add(t_sub(t, x), ONE))
                    return t
                return lift1c(f, v)
            if fc in ('int', 'bool', 'enum'):
                tb, tsg = tt.get('b', 32), tt.get('sg', True)
                fb, fsg = ft.get('b', 32), ft.get('sg', True)

                def f(x):
                    x = num_leaf(x)
                    if tc == 'enum':
                        return x
                    if isnum(x):
                        n = int(x.args[0])
                        if tsg:
                            n = (n + (1 << (tb - 1))) % (1 << tb) - (1 << (tb - 1))
                        elif n < 0 and tb >= 32:
                            return mk('U', x)
                        else:
                            n %= (1 << tb)
                        return num(n)
                    if tb == 8 and fb > 8:
                        if tsg:
                            return x if x in bits8 else mk('n8', unU(x))
                        return mk('nu', 8, unU(x))
                    if tb == 8 and fb == 8 and tsg != fsg:
                        return mk('n8', x) if tsg else mk('nu', 8, x)
                    if tb == 16 and fb > 16:
                        return mk('nu', 16, unU(x)) if not tsg else x
                    if not tsg and fsg:
                        return x if x.op == 'U' or nonneg(x) else mk('U', x)
                    if tsg:
                        return unU(x)
                    return x
                return lift1c(f, v)
        if tc == 'flt':
            return lift1c(lambda x: unU(num_leaf(x)), v)
        return v

    def e_cond(self, e, st):
        c = self.cond(e['c'], st)
        a, b = self.split(c, st)
        va = self.rv(e['a'], a) if a is not None else None
        vb = self.rv(e['b'], b) if b is not None else None
        a = self.live(a)
        b = self.live(b)
        m = self.merge_states([a, b])
        if m is None:
            st.g = FALSE
            return va if va is not None else vb
        st.g, st.mem = m.g, m.mem
        if a is None:
            return vb
        if b is None:
            return va
        if va is None or vb is None:
            return None
        return self.merge_val(restrict(a.g, st.g), va, vb)

    def e_un(self, e, st):
        o = e['o']
        if o == '!':
            return NOT(self.cond(e['e'], st))
        if o == '&':
            if e['e']['k'] == 'func':
                return self.ev(e['e'], st)
            L = self.lval(e['e'], st)
            return lift1c(lambda t: mk('addr', t), L)
        if o == '*':
            return ('L', self.deref(self.ev(e['e'], st)))
        if o in ('++', '--'):
            L = self.lval(e['e'], st)
            t = self.et(e)
            old = self.typed(self.read(L, st), t)
            one = leaf(ONE)
            new = self.arith('+' if o == '++' else '-', old, one, t, t)
            self.store(L, new, st, e['l'])
            if e.get('post'):
                return old
            return ('L', L) if e.get('v') else new
        v = self.ev(e['e'], st)
        if o == '-':
            return lift1c(lambda x: mk('ninf') if x.op == 'inf' else mk('inf') if x.op == 'ninf' else t_neg(num_leaf(x)), v)
        if o == '+':
            return lift1c(num_leaf, v)
        if o == '~':
            return lift1c(lambda x: mk('bits', '~', x), v)
        return v

    def arith(self, o, a, b, t, ft=None):
        c = t.get('c')
        a, b = self.freeze(a), self.freeze(b)
        if c == 'ptr' or (o in '+-' and any(x.op in ('addr', 'it') for x in leaves(a))):
            def f(x, y):
                if x.op == 'it' and y.op == 'it':
                    return t_sub(x.args[1], y.args[1])
                if x.op == 'it':
                    return mk('it', x.args[0], t_add(x.args[1], y) if o == '+' else t_sub(x.args[1], y))
                if x.op == 'addr' and x.args[0].op == 'elem' and y.op not in ('addr',):
                    q = x.args[0]
                    return mk('addr', mk('elem', q.args[0], t_add(q.args[1], y) if o == '+' else t_sub(q.args[1], y)))
                if x.op == 'addr' and y.op != 'addr':
                    return mk('addr', mk('elem', x.args[0], y if o == '+' else t_neg(y)))
                return mk('ptr' + o, x, y)
            return lift2c(f, a, b)
        if o == '+':
            r = add(a, b)
        elif o == '-':
            r = sub(a, b)
            if c == 'int' and not t.get('sg', True):
                r = lift1c(lambda x: x if nonneg(x) else mk('U', x), r)
        elif o == '*':
            r = mul(a, b)
        elif o == '/':
            r = fdiv(a, b) if c == 'flt' else lift2c(idiv_leaf, a, b)
        elif o == '%':
            r = lift2c(imod_leaf, a, b)
        elif o in ('<<', '>>', '&', '|', '^'):
            def f(x, y):
                x, y = num_leaf(x), num_leaf(y)
                if isnum(x) and isnum(y) and x.args[0] >= 0 and y.args[0] >= 0:
                    i, j = int(x.args[0]), int(y.args[0])
                    return num({'<<': lambda: i << j, '>>': lambda: i >> j, '&': lambda: i & j, '|': lambda: i | j,
                                '^': lambda: i ^ j}[o]())
                x0, y0 = unU(x), unU(y)
                if isnum(y0):
                    n = int(y0.args[0])
                    if o == '<<' and 0 <= n < 62:
                        return t_mul(x0, num(1 << n))
                    if o == '>>' and 0 <= n < 62 and nonneg(x0):
                        return idiv_leaf(x0, num(1 << n))
                    if o == '&' and n >= 0 and (n & (n + 1)) == 0 and nonneg(x0):
                        return imod_leaf(x0, num(n + 1))
                    if o in ('|', '^') and n == 0:
                        return x0
                if o in '&|^' and x0.id > y0.id:
                    x0, y0 = y0, x0
                return mk('bits', o, x0, y0)
            ca = set(t_.op for t_ in leaves(a) + leaves(b))
            if c == 'bool' or (ca <= {'true', 'false'} and o in '&|^'):
                x, y = tobool(a), tobool(b)
                return AND(x, y) if o == '&' else OR(x, y) if o == '|' else NOT(IFF(x, y))
            r = lift2c(f, a, b)
        else:
            raise Unsupported('op ' + o)
        if c == 'int' and not t.get('sg', True) and o in '+*':
            def g(x):
                return x if nonneg(x) or x.op == 'U' else x
            r = lift1c(g, r)
        if TM.nsize(r) > self.max_nodes:
            self.note('value diagram too large')
            r = leaf(mk('big', self.fresh()))
        return r

    def e_bin(self, e, st):
        o = e['o']
        if o == '&&' or o == '||':
            a = self.cond(e['a'], st)
            t, f = self.split(a, st)
            if o == '&&':
                if t is None:
                    return FALSE if st.g is not FALSE else FALSE
                b = self.cond(e['b'], t)
                m = self.merge_states([self.live(t), f])
                r = AND(a, b)
            else:
                if f is None:
                    return TRUE
                b = self.cond(e['b'], f)
                m = self.merge_states([t, self.live(f)])
                r = OR(a, b)
            if m is None:
                st.g = FALSE
            else:
                st.g, st.mem = m.g, m.mem
            return r
        if o == ',':
            self.ev(e['a'], st, discard=True)
            return self.ev(e['b'], st)
        a = self.freeze(self.ev(e['a'], st))
        b = self.freeze(self.ev(e['b'], st))
        if o in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(o, a, b, self.et(e['a']), self.et(e['b']))
        if o in ('.*', '->*'):
            return leaf(mk('memptr', self.leafx(a), self.leafx(b)))
        return self.arith(o, a, b, self.et(e))

    def leafx(self, a):
        return a.leaf if a.leaf is not None else a

    def compare(self, o, a, b, ta, tb):
        def f(x, y):
            if ta.get('c') in ('ptr', 'rec') or tb.get('c') in ('ptr', 'rec') or x.op in NUMOPS_NOT or y.op in NUMOPS_NOT:
                if x.op == 'it' and y.op == 'it' and x.args[0] is y.args[0]:
                    return cmp_terms(o, x.args[1], y.args[1], True)
                if o in ('==', '!='):
                    r = self.eqx(x, y)
                    return r if o == '==' else NOT(r)
                return bvar(mk('rel', o, x, y))
            if (x.op in ('true', 'false') or y.op in ('true', 'false')) and o in ('==', '!='):
                r = eq_leaf(x, y)
                return r if o == '==' else NOT(r)
            return cmp_leaf(o, num_leaf(x), num_leaf(y))
        if ta.get('c') == 'bool' and tb.get('c') == 'bool' and o in ('==', '!='):
            r = IFF(tobool(a), tobool(b))
            return r if o == '==' else NOT(r)
        return lift2c(f, a, b)

    def eqx(self, x, y):
        return eq_leaf(x, y)

    def store(self, L, v, st, line, sub_=None):
        self.emit('store', '', st, line, loc=L, val=v)
        self.write(L, v, st)

    def e_asg(self, e, st):
        o = e['o']
        t = self.et(e['a'])
        if o == '=':
            v = self.rv(e['b'], st)
            L = self.lval(e['a'], st)
        else:
            b = self.ev(e['b'], st)
            L = self.lval(e['a'], st)
            old = self.typed(self.read(L, st), t)
            ct = self.ty(e['ct']) if 'ct' in e else t
            old2 = self.convert(old, t, ct)
            v = self.arith(o[:-1], old2, b, ct)
            v = self.convert(v, ct, t)
        if st.g is FALSE:
            return v
        self.store(L, v, st, e['l'])
        return ('L', L) if e.get('v') else v

    # -------- initialisation
    def eval_into(self, e, L, st, t=None):
        """initialise location L with expression e"""
        k = e['k']
        if t is None:
            t = self.et(e)
        if k == 'list':
            c = t.get('c')
            if c == 'arr':
                n = t['n']
                v = Node(leaf(mk('fill', ZERO if self.ty(t['pt']).get('c') in ('int', 'flt') else mk('default', ''), num(n))),
                         {'#size': leaf(num(n))})
                self.write(L, v, st)
                for i, x in enumerate(e['a']):
                    self.eval_into(x, lift1c(lambda b: mk('elem', b, num(i)), L), st, self.ty(t['pt']))
                return
            if c == 'rec':
                rec = self.p.records.get(t['rec'])
                if rec and 'fields' in rec and len(e['a']) <= len(rec['fields']) + len(rec.get('bases', [])):
                    self.write(L, Node(leaf(mk('default', t['rec']))), st)
                    nb = len(rec.get('bases', []))
                    for i, x in enumerate(e['a']):
                        if i < nb or x is None:
                            continue
                        fn = rec['fields'][i - nb]['n']
                        self.eval_into(x, lift1c(lambda b: mk('fld', b, fn), L), st)
                    return
                # std::array / initializer_list
                self.init_list(e, L, st)
                return
            self.write(L, self.ev(e, st), st)
            return
        if k == 'ctor':
            self.construct(e, L, st)
            return
        v = self.ev(e, st)
        if v is None:
            v = leaf(mk('undef', 'void'))
        self.write(L, v, st)

    def init_list(self, e, L, st):
        xs = e['a']
        if len(xs) == 1 and xs[0]['k'] == 'list':
            xs = xs[0]['a']
        self.write(L, Node(leaf(mk('default', 'list')), {'#size': leaf(num(len(xs)))}), st)
        for i, x in enumerate(xs):
            self.eval_into(x, lift1c(lambda b: mk('elem', b, num(i)), L), st)

    def e_ctor(self, e, st):
        loc = mk('tmp', self.fresh())
        self.construct(e, leaf(loc), st)
        return st.mem.pop(loc, leaf(loc))

    def construct(self, e, L, st):
        d = self.p.decls[e['f']]
        t = self.et(e)
        qn = d['sqn']
        cls = strip_targs(d.get('clsqn') or '')
        args = e['a']
        if e.get('copy'):
            if d.get('defaulted') or e['f'] not in self.p.funcs:
                v = self.rv(args[0], st)
                self.write(L, v, st)
                return
        f = self.p.funcs.get(e['f'])
        h = self.hooks.get(qn)
        if h is not None and L.leaf is not None:
            av = [self.argval(a, st) for a in args]
            r = h(self, st, e, av, L)
            if r is not None:
                self.write(L, r, st)
                return
        if f is not None and qn not in self.opaque and L.leaf is not None and len(self.frames) < self.max_depth + 6:
            ins = args
            self.call_inline(f, L.leaf, ins, st, e['l'])
            return
        kind = self.container_kind(t)
        if cls in PTRS or cls.startswith('boost::shared_ptr') or kind == 'ptr':
            if not args:
                self.write(L, leaf(mk('null')), st)
            else:
                v = self.rv(args[0], st)
                self.write(L, v, st)
            return
        if kind == 'seq':
            isstr = 'basic_string' in cls
            if not args:
                if isstr:
                    self.write(L, leaf(mk('str', '')), st)
                else:
                    self.write(L, Node(leaf(mk('default', 'seq')), {'#size': leaf(ZERO)}), st)
                return
            if isstr:
                vs = [self.freeze(self.rv(a, st)) for a in args[:1]]
                self.write(L, vs[0], st)
                return
            at = self.et(args[0])
            if self.container_kind(at) == 'seq' and args[0]['k'] == 'list' or at.get('qn') == 'std::initializer_list':
                if args[0]['k'] == 'list':
                    self.init_list(args[0], L, st)
                else:
                    self.write(L, self.rv(args[0], st), st)
                return
            if at['c'] == 'int':
                n = self.freeze(self.rv(args[0], st))
                fv = self.freeze(self.rv(args[1], st)) if len(args) > 1 and self.et(args[1]).get('c') in ('int', 'flt', 'bool', 'rec', 'enum') and \
                    'allocator' not in self.et(args[1]).get('s', '') else leaf(mk('default', 'seqelem'))
                b = liftn(lambda xs: mk('fill', xs[0], xs[1]), [fv, n])
                self.write(L, Node(b, {'#size': n}), st)
                return
            vs = [self.freeze(self.rv(a, st)) for a in args if 'allocator' not in self.et(a).get('s', '')]
            if len(vs) == 2:
                def rng(xs):
                    a, b = xs
                    if isinstance(a, T) and isinstance(b, T) and a.op == 'it' and b.op == 'it' and a.args[0] is b.args[0]:
                        return mk('rangecopy', a.args[0], a.args[1], b.args[1])
                    return mk('rangecopy', a, b)
                b = liftn(rng, vs)
                self.write(L, Node(b), st)
                return
            self.write(L, leaf(mk('ctor', cls, *[self.leafx(v) for v in vs])), st)
            return
        if kind == 'assoc' and not args:
            self.write(L, leaf(mk('emptymap')), st)
            return
        if cls == 'std::pair' and len(args) == 2:
            for n, a in zip(('first', 'second'), args):
                self.eval_into(a, lift1c(lambda b: mk('fld', b, n), L), st)
            return
        if not args:
            self.write(L, leaf(mk('default', t.get('s', ''))), st)
            return
        if cls.startswith('std::function') or cls.startswith('boost::function'):
            self.write(L, self.freeze(self.rv(args[0], st)), st)
            return
        vs = [self.freeze(self.argval(a, st)) for a in args]
        self.callsites += 1
        if len(vs) == 1 and cls.startswith('std::') and 'const_iterator' in cls and any(t.op in ('it', 'phi', 'mapit') for t in leaves(vs[0])):
            # an iterator as a constant iterator
            self.write(L, vs[0], st)
            return
        self.emit('ctor', qn, st, e['l'], args=tuple(vs), decl=d)
        self.write(L, liftn(lambda xs: mk('ctor', cls, *xs), vs), st)

    def argval(self, a, st):
        return self.rv(a, st)

    # -------- lambdas
    def e_lambda(self, e, st):
        env = {}
        fr = self.frames[-1]
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'init' in c:
                loc = mk('cap', self.fresh(), c['n'])
                self.eval_into(c['init'], leaf(loc), st)
                env[c['id']] = leaf(loc)
                continue
            L = fr.vars.get(c['id'])
            if L is None and fr.lambda_env is not None:
                L = fr.lambda_env.get(c['id'])
            if L is None:
                L = leaf(mk('var', 0, c['id'], c['n']))
            if c.get('ref'):
                env[c['id']] = L
            else:
                loc = mk('cap', self.fresh(), c['n'])
                st.mem[loc] = self.read(L, st)
                env[c['id']] = leaf(loc)
        # implicit captures are listed by clang as well
        return leaf(mk('lambda', Lam.get(e, env, fr.this, fr.tu, fr.name, fr.file, dict(fr.vars), fr.lambda_env)))

    def call_lambda(self, lam, args, st, line, argvals=None):
        fr = Frame(None, lam.tu, lam.this)
        fr.name = lam.name + '::{lambda@%d}' % lam.e['l'] if False else lam.name + '::lambda'
        fr.file = lam.file
        fr.callline = line
        fr.lambda_env = dict(lam.outer)
        if lam.outer_env:
            for k, v in lam.outer_env.items():
                fr.lambda_env.setdefault(k, v)
        fr.lambda_env.update(lam.env)
        if len(self.frames) > self.max_depth + 8:
            return leaf(mk('call', 'lambda', self.fresh()))
        self.bind_params(lam.e['params'], args, fr, st, argvals)
        self.frames.append(fr)
        try:
            fr.ret_ref = self.ty(lam.e['ret'])['c'] == 'ref'
            sub_st = State(st.g, st.mem)
            end = self.stmt(lam.e['body'], sub_st)
            outs = list(fr.rets) + ([(end, None)] if end is not None else [])
            return self.join_outs(outs, st, fr)
        finally:
            self.frames.pop()

    def join_outs(self, outs, st, fr):
        outs = [(s, v) for s, v in outs if s is not None and s.g is not FALSE]
        if not outs:
            st.g = FALSE
            return None
        cur, val = outs[0]
        for s, v in outs[1:]:
            g = OR(cur.g, s.g)
            sel = restrict(cur.g, g)
            if val is None:
                val = v
            elif v is not None:
                val = self.merge_val(sel, val, v)
            cur = self.merge2(cur, s)
        st.g = cur.g
        st.mem = cur.mem
        if fr.ret_ref and val is not None:
            return ('L', val)
        return val

    def bind_params(self, params, args, fr, st, argvals=None):
        caller = self.frames[-1]
        for i, p in enumerate(params):
            pt = fr.tu.types[p['t']]
            if argvals is not None:
                v = argvals[i] if i < len(argvals) else leaf(mk('undef', p['n']))
                if isinstance(v, tuple):
                    fr.vars[p['id']] = v[1]
                    if pt['c'] != 'ref':
                        loc = mk('var', len(self.frames) + 1, p['id'], p['n'])
                        fr.vars[p['id']] = leaf(loc)
                        st.mem[loc] = self.read(v[1], st)
                    continue
                loc = mk('var', len(self.frames) + 1, p['id'], p['n'])
                fr.vars[p['id']] = leaf(loc)
                st.mem[loc] = v
                continue
            if i >= len(args):
                fr.vars[p['id']] = leaf(mk('undef', p['n']))
                continue
            a = args[i]
            if pt['c'] == 'ref':
                fr.vars[p['id']] = self.lval(a, st)
            else:
                loc = mk('var', len(self.frames) + 1, p['id'], p['n'])
                v = self.rv(a, st)
                if v is None:
                    v = leaf(mk('undef', p['n']))
                fr.vars[p['id']] = leaf(loc)
                st.mem[loc] = v

    # -------- calls
    def call_inline(self, f, this, args, st, line, argvals=None):
        self.callsites += 1
        self.ncalls_inlined += 1
        fr = Frame(f, f.tu, this)
        fr.callline = line
        self.bind_params(f.params, args, fr, st, argvals)
        if st.g is FALSE:
            return None
        self.analysed.add(f.key)
        self.frames.append(fr)
        nj = self.jumps
        self.jumps = []
        try:
            fr.ret_ref = self.ty(f.ret)['c'] == 'ref'
            s2 = State(st.g, st.mem)
            if f.kind == 'ctor' and f.inits is not None:
                s2 = self.ctor_inits(f, fr, s2)
            end = self.stmt(f.body, s2)
            outs = list(fr.rets) + ([(end, None)] if end is not None else [])
            return self.join_outs(outs, st, fr)
        finally:
            self.frames.pop()
            self.jumps = nj

    def recursing(self, f):
        n = sum(1 for fr in self.frames if fr.func is f)
        return n >= 2

    def resolve(self, key, qualified=False):
        """function body for a callee key, devirtualised when the override is unique"""
        f = self.p.funcs.get(key)
        d = self.p.decls.get(key)
        if d and d.get('virt') and not qualified:
            ov = self.p.overriders.get(key, [])
            if d.get('pure'):
                qs = set(x.qn for x in ov)
                if self.devirt and len(qs) == 1 and self.p.overridden_everywhere(key):
                    return ov[0]
                return None
        return f

    def e_call(self, e, st):
        if 'f' not in e:
            # call through an expression
            c = self.freeze(self.ev(e['ce'], st))
            return self.call_value(c, e['a'], st, e['l'], self.et(e))
        d = self.p.decls[e['f']]
        return self.dispatch(e, d, None, None, st)

    def call_value(self, c, args, st, line, rt, decl=None):
        if c.leaf is not None and c.leaf.op == 'lambda':
            return self.call_lambda(c.leaf.args[0], args, st, line)
        if c.leaf is not None and c.leaf.op == 'func':
            f = self.resolve(c.leaf.args[0])
            if f is not None:
                return self.call_inline(f, None, args, st, line)
        if c.leaf is None and len(leaves(c)) <= 4 and all(t.op in ('lambda', 'func') for t in leaves(c)):
            return self.call_cases(cases(c), args, st, line, rt)
        vs = [self.freeze(self.rv(a, st)) for a in args]
        self.emit('callval', '', st, line, args=tuple(vs), obj=c)
        return self.typed(liftn(lambda xs: mk('call', 'operator()', *xs), [c] + vs), rt)

    def call_cases(self, cs, args, st, line, rt):
        """call of one of several known functions"""
        (g, t), rest = cs[0], cs[1:]
        if not rest:
            return self.call_value(leaf(t), args, st, line, rt)
        a, b = self.split(g, st)
        va = self.call_value(leaf(t), args, a, line, rt) if a is not None else None
        vb = self.call_cases(rest, args, b, line, rt) if b is not None else None
        a, b = self.live(a), self.live(b)
        m = self.merge_states([a, b])
        if m is None:
            st.g = FALSE
            return va if va is not None else vb
        st.g, st.mem = m.g, m.mem
        if a is None or b is None:
            return vb if a is None else va
        if va is None or vb is None:
            return None
        return self.merge_val(restrict(a.g, st.g), va, vb)

    def e_mcall(self, e, st):
        if 'f' not in e:
            return leaf(mk('unk', 'mcall', e['l']))
        d = self.p.decls[e['f']]
        if e.get('arrow'):
            pv = self.freeze(self.ev(e['obj'], st))
            O = self.deref(pv)
        else:
            O = None
        return self.dispatch(e, d, O, e['obj'], st)

    def container_kind(self, t):
        q = strip_targs(t.get('qn') or '')
        if t.get('c') != 'rec':
            return 'arr' if t.get('c') == 'arr' else None
        if q in SEQ or q == 'std::basic_string':
            return 'seq'
        if q in ASSOC:
            return 'assoc'
        if q in PTRS:
            return 'ptr'
        return None

    def csize(self, C, t, st):
        if t.get('c') == 'arr':
            return leaf(num(t['n']))
        q = strip_targs(t.get('qn') or '')
        if q in ('std::array', 'boost::array'):
            r = self.p.records.get(t['rec'])
            if r and r.get('ta') and isinstance(r['ta'][-1], int):
                return leaf(num(r['ta'][-1]))
        v = self.read(C, st)
        return self.typed(self.getfld(v, '#size'), {'c': 'int', 'sg': False, 'b': 64})

    def dispatch(self, e, d, O, obj, st):
        qn = d['sqn']
        name = d['n']
        args = e['a']
        line = e['l']
        cls = strip_targs(d.get('clsqn') or '')
        rt = self.et(e)
        h = self.hooks.get(qn)
        if h is not None:
            r = h(self, st, e, d, O, obj)
            if r is not NotImplemented:
                return r
        if qn.startswith('ros::console::'):
            if name == 'ros_assert':
                self.ev(args[0], st)
            return None if name != 'set_logger_level' else FALSE
        if qn in self.container_index or cls in self.container_index and name == 'operator[]':
            if O is None:
                O = self.lval(obj, st)
            O = self.objloc(O)
            i = self.index_key(self.rv(args[0], st), self.et(args[0]), st)
            self.emit('index', qn, st, line, args=(i,), obj=O)
            return ('L', lift2c(lambda b, j: mk('elem', b, j), O, i))
        if d['n'] == 'operator()' and obj is not None and (d.get('lambda') or 'lambda' in (d.get('cls') or '') or qn.endswith(')::operator()') or ')::' in qn):
            L = O if O is not None else self.lval(obj, st)
            c = self.read(L, st)
            if isinstance(c, N) and c.leaf is not None and c.leaf.op == 'lambda':
                return self.call_value(c, args, st, line, rt)
        b = self.builtin(e, d, qn, name, cls, O, obj, args, st, line, rt)
        if b is not NotImplemented:
            return b
        if d.get('defaulted') and name == 'operator=':
            v = self.rv(args[0], st)
            if O is None:
                O = self.lval(obj, st)
            self.store(O, v, st, line)
            return ('L', O)
        if qn not in self.opaque and cls not in self.opaque:
            f = self.resolve(e['f'], e.get('qual'))
            if f is not None and not self.recursing(f) and len(self.frames) < self.max_depth:
                if d.get('kind') == 'ctor':
                    raise Unsupported('ctor call')
                if d.get('cls') and not d.get('static'):
                    if O is None:
                        O = self.lval(obj, st)
                    # several possible receivers: analyse on the guarded union
                    if O.leaf is None:
                        return self.multi_call(f, O, args, st, line)
                    return self.call_inline(f, O.leaf, args, st, line)
                return self.call_inline(f, None, args, st, line)
            if f is not None:
                self.note('not inlined: %s (recursion/depth)' % qn)
        return self.external(e, d, qn, name, cls, O, obj, args, st, line, rt)

    def multi_call(self, f, O, args, st, line):
        outs = []
        for g, t in cases(O):
            gg = AND(st.g, g)
            if gg is FALSE or not sat(gg):
                continue
            s = st.fork(gg)
            r = self.call_inline(f, t, args, s, line)
            outs.append((s, r))
        outs = [(s, r) for s, r in outs if s.g is not FALSE]
        if not outs:
            st.g = FALSE
            return None
        cur, val = outs[0]
        isref = isinstance(val, tuple)
        if isref:
            val = val[1]
        for s, r in outs[1:]:
            sel = restrict(cur.g, OR(cur.g, s.g))
            if isinstance(r, tuple):
                r = r[1]
            if val is not None and r is not None:
                val = self.merge_val(sel, val, r)
            cur = self.merge2(cur, s)
        st.g, st.mem = cur.g, cur.mem
        return ('L', val) if isref else val

    def objloc(self, O):
        return O

    def index_key(self, v, t, st):
        """canonical key for grid-vector indices"""
        if isinstance(v, Node) or (t.get('c') == 'rec'):
            q = strip_targs(t.get('qn') or '')
            if q == 'planner_cspace::CyclicVecBase':
                r = self.p.records.get(t['rec'])
                dim = r['ta'][0] if r and r.get('ta') else 3
                isf = t['rec'].rstrip('> ').endswith('float')
                es = []
                arr = self.getfld(v, 'e_')
                et = {'c': 'flt', 'b': 32} if isf else {'c': 'int', 'sg': True, 'b': 32}
                for i in range(dim):
                    es.append(self.typed(self.freeze(self._getelem(arr, num(i))), et))
                return liftn(lambda xs: mk('vec', *xs), es)
            return self.freeze(v)
        return v

    # -------- external (unanalysed) callee
    def external(self, e, d, qn, name, cls, O, obj, args, st, line, rt):
        self.callsites += 1
        static = d.get('static') or not d.get('cls')
        vs = []
        refs = []
        argl = []
        for i, a in enumerate(args):
            pt = None
            if i < len(d['params']):
                pt = d['_tu'].types[d['params'][i]['t']]
            if pt is not None and pt['c'] == 'ref' and not d['_tu'].types[pt['pt']].get('const') and a.get('v') and not pt.get('rr'):
                L = self.lval(a, st)
                refs.append((i, L))
                vs.append(self.freeze(self.read(L, st)))
                argl.append(L)
            else:
                v = self.rv(a, st)
                if v is None:
                    v = leaf(mk('undef', 'void'))
                if self.et(a).get('c') == 'rec' and strip_targs(self.et(a).get('qn') or '') == 'planner_cspace::CyclicVecBase':
                    v = self.index_key(v, self.et(a), st)
                vs.append(self.freeze(v))
                argl.append(None)
                # pointers to local objects may be written
        if st.g is FALSE:
            return leaf(mk('undef', 'dead'))
        ov = None
        if not static:
            if O is None:
                O = self.lval(obj, st)
            ov = self.freeze(self.read(O, st))
            if ov.leaf is not None and ov.leaf.op == 'tmp':
                pass
        ev = self.emit('call', qn, st, line, args=tuple(vs), obj=O, decl=d, val=ov, argl=tuple(argl))
        if qn in NOEXIT:
            st.g = FALSE
            return None
        # exceptions
        if qn in THROWERS or name in ('lookupTransform',) and 'tf2' in qn:
            tn = THROWERS.get(qn, 'tf2::TransformException')
            c = self.count('exc:' + qn)
            a = bvar(mk('throws', qn, c))
            thr = st.fork(AND(st.g, a))
            self.do_throw(thr, tn, line)
            st.g = AND(st.g, NOT(a))
            if st.g is FALSE:
                return None
        xs = ([ov] if ov is not None else []) + vs
        extra = ()
        if qn in IMPURE or name == 'now':
            extra = (self.count(qn),)

        def term(tag):
            return liftn(lambda ts: mk(tag, qn, *(tuple(ts) + extra)), xs)
        res = term('call')
        for i, L in refs:
            self.write(L, liftn(lambda ts: mk('out', qn, i, *(tuple(ts) + extra)), xs), st)
        if not static and not d.get('const') and d.get('kind') != 'dtor':
            self.write(O, term('mut'), st)
        if rt.get('c') == 'void':
            return None
        if self.ty(e['t']).get('c') == 'ref' or e.get('v'):
            if O is not None and d.get('cls') and strip_targs(rt.get('qn') or '?') == cls:
                return ('L', O)       # fluent interface
            return ('L', res)
        return self.typed(res, rt)

    def count(self, k):
        c = self.ncall.get(k, 0)
        self.ncall[k] = c + 1
        return c

    # -------- modelled library
    def builtin(self, e, d, qn, name, cls, O, obj, args, st, line, rt):
        NI = NotImplemented

        def val(i):
            v = self.rv(args[i], st)
            return leaf(mk('undef', 'void')) if v is None else v

        def nval(i):
            return self.freeze(val(i))
        isstd = qn.startswith('std::') or '::' not in qn or qn.startswith('boost::') or qn.startswith('__gnu_cxx')
        if not isstd:
            return NI
        if qn.startswith('std::') and d.get('cls') is None or '::' not in qn:
            if name in MATH1 and len(args) == 1:
                return lift1c(lambda x: fn_leaf(MATH1[name], x), nval(0))
            if name in MATH2 and len(args) == 2:
                return lift2c(lambda x, y: fn_leaf(MATH2[name], x, y), nval(0), nval(1))
            if name in ('abs', 'fabs', 'fabsf', 'labs') and len(args) == 1:
                return lift1c(lambda x: ite(cmp_terms('<', num_leaf(x), ZERO, is_int(x)), leaf(t_neg(num_leaf(x))), leaf(num_leaf(x))), nval(0))
            if name in ('hypot', 'hypotf') and len(args) == 2:
                return lift2c(lambda x, y: fn_leaf('sqrt', t_add(t_mul(x, x), t_mul(y, y))), nval(0), nval(1))
            if name in ('pow', 'powf') and len(args) == 2:
                def pw(x, y):
                    if isnum(y) and y.args[0].denominator == 1 and 0 <= y.args[0] <= 4:
                        r = ONE
                        for _ in range(int(y.args[0])):
                            r = t_mul(r, x)
                        return r
                    return fn_leaf('pow', x, y)
                return lift2c(pw, nval(0), nval(1))
            if name in ('isfinite', 'isnan', 'isinf', 'finite') and len(args) == 1:
                def fin(x):
                    x = num_leaf(x)
                    if isnum(x):
                        return TRUE if name in ('isfinite', 'finite') else FALSE
                    if x.op in ('inf', 'ninf'):
                        return TRUE if name == 'isinf' else FALSE
                    if x is NAN:
                        return TRUE if name == 'isnan' else FALSE
                    if name in ('isfinite', 'finite'):
                        return AND(NOT(bvar(mk('isnan', x))), NOT(bvar(mk('isinf', x))))
                    return bvar(mk(name, x))
                return lift1c(fin, nval(0))
            if name in ('min', 'max') and len(args) == 2 and self.et(args[0]).get('c') in ('int', 'flt', 'enum', 'bool'):
                a, b = nval(0), nval(1)

                def mm(x, y):
                    c = cmp_leaf('<', y, x) if name == 'min' else cmp_leaf('<', x, y)
                    return ite(c, leaf(y), leaf(x))
                return lift2c(mm, a, b)
            if name in ('min', 'max') and len(args) == 1 and args[0]['k'] == 'list':
                xs = args[0]['a']
                r = None
                for x in xs:
                    v = self.freeze(self.rv(x, st))
                    if r is None:
                        r = v
                    else:
                        r = lift2c(lambda p, q: ite(cmp_leaf('<', q, p) if name == 'min' else cmp_leaf('<', p, q), leaf(q), leaf(p)), r, v)
                return r
            if name == 'clamp' and len(args) == 3:
                v, lo, hi = nval(0), nval(1), nval(2)
                r = lift2c(lambda x, l: ite(cmp_leaf('<', x, l), leaf(l), leaf(x)), v, lo)
                return lift2c(lambda x, h: ite(cmp_leaf('<', h, x), leaf(h), leaf(x)), r, hi)
            if name in ('move', 'forward', 'as_const', 'addressof') and len(args) == 1:
                if name == 'addressof':
                    return lift1c(lambda t: mk('addr', t), self.lval(args[0], st))
                return ('L', self.lval(args[0], st))
            if name == 'swap' and len(args) == 2:
                a, b = self.lval(args[0], st), self.lval(args[1], st)
                va, vb = self.read(a, st), self.read(b, st)
                self.store(a, vb, st, line)
                self.store(b, va, st, line)
                return None
            if name in ('make_pair',):
                v = Node(leaf(mk('default', 'pair')), {'first': val(0), 'second': val(1)})
                return v
            if name in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
                C = self.lval(args[0], st)
                return self.iter_of(C, self.et(args[0]), name, st)
            if name in ('next', 'prev', 'advance') and args:
                n = nval(1) if len(args) > 1 else leaf(ONE)
                if name == 'advance':
                    L = self.lval(args[0], st)
                    it = self.freeze(self.read(L, st))
                    self.store(L, self.arith('+', it, n, {'c': 'ptr'}), st, line)
                    return None
                it = nval(0)
                return self.arith('+' if name == 'next' else '-', it, n, {'c': 'ptr'})
            if name == 'distance' and len(args) == 2:
                return self.arith('-', nval(1), nval(0), {'c': 'ptr'})
        if name in ('make_shared', 'make_unique', 'allocate_shared') and d.get('cls') is None:
            self.nnew += 1
            rq = rt.get('s', '')
            loc = mk('new', rq, self.nnew)
            vs = [self.freeze(self.rv(a, st)) for a in args]
            if len(vs) == 0:
                st.mem[loc] = leaf(mk('default', rq))
            else:
                st.mem[loc] = leaf(mk('ctor', rq, *[self.leafx(v) for v in vs]))
            return leaf(mk('addr', loc))
        if cls == 'std::_Bit_reference' and obj is not None and name in ('operator=', 'operator bool'):
            p = self.freeze(self.rv(obj, st))
            if all(t.op == 'addr' for t in leaves(p)):
                L = self.deref(p)
                if name == 'operator bool':
                    return tobool(self.freeze(self.read(L, st)))
                v = tobool(self.freeze(self.rv(args[0], st)))
                self.store(L, v, st, line)
                return p
        if qn == 'std::function::operator()' or qn == 'boost::function::operator()' or \
                (name == 'operator()' and cls in ('std::function', 'boost::function', 'boost::function_n', 'boost::function1')):
            if O is None:
                O = self.lval(obj, st)
            c = self.freeze(self.read(O, st))
            return self.call_value(c, args, st, line, rt)
        # iterators, free operators and member operators
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and (
                qn.startswith('std::') or qn.startswith('__gnu_cxx') or qn.startswith('boost::')):
            ops = ([obj] if obj is not None else []) + list(args)
            if len(ops) == 2:
                a = self.freeze(self.rv(ops[0], st))
                b = self.freeze(self.rv(ops[1], st))
                o = name[8:]
                return self.lib_compare(o, a, b, st)
        if 'iterator' in cls or '_Node_iterator' in cls or cls.startswith('std::_List') or cls.startswith('std::_Rb_tree') \
                or cls.startswith('std::__detail::_Node') or (
                    name in ('operator-', 'operator+') and qn.startswith('__gnu_cxx')):
            if name in ('operator*', 'operator->'):
                it = self.freeze(self.rv(obj, st))
                L = self.deref(it)
                if self.track_index:
                    self.emit('deref', 'iterator', st, line, args=(it,), obj=L)
                if name == 'operator*':
                    return ('L', L)
                return lift1c(lambda t: mk('addr', t), L)
            if name in ('operator++', 'operator--'):
                L = self.lval(obj, st)
                old = self.freeze(self.read(L, st))
                new = lift1c(lambda t: self.it_step(t, 1 if name == 'operator++' else -1), old)
                self.store(L, new, st, line)
                return old if args else ('L', L)
            if name in ('operator+=', 'operator-='):
                L = self.lval(obj, st)
                old = self.freeze(self.read(L, st))
                self.store(L, self.arith(name[8], old, nval(0), {'c': 'ptr'}), st, line)
                return ('L', L)
            if name in ('operator+', 'operator-'):
                ops = ([obj] if obj is not None else []) + list(args)
                a = self.freeze(self.rv(ops[0], st))
                b = self.freeze(self.rv(ops[1], st))
                return self.arith(name[8], a, b, {'c': 'ptr'})
            if name == 'operator[]':
                it = self.freeze(self.rv(obj, st))
                i = nval(0)
                return ('L', self.deref(self.arith('+', it, i, {'c': 'ptr'})))
            if name == 'base':
                return self.freeze(self.rv(obj, st))
            if name == 'operator=':
                L = self.lval(obj, st)
                self.store(L, val(0), st, line)
                return ('L', L)
        if cls == 'std::pair' and name == 'operator=' and len(args) == 1:
            L = self.lval(obj, st) if O is None else O
            self.store(L, val(0), st, line)
            return ('L', L)
        if cls in PTRS or cls.startswith('std::__shared_ptr') or cls.startswith('std::__uniq') or cls in ('boost::shared_ptr',):
            if name in ('operator->', 'get'):
                return self.freeze(self.rv(obj, st) if not e.get('arrow') else self.read(O, st))
            if name == 'operator*':
                return ('L', self.deref(self.freeze(self.rv(obj, st))))
            if name == 'operator[]':
                B = self.deref(self.freeze(self.rv(obj, st)))
                return ('L', self.elem_loc(B, nval(0), st, line))
            if name in ('operator bool', 'operator!'):
                b = tobool(self.freeze(self.rv(obj, st)))
                return NOT(b) if name == 'operator!' else b
            if name in ('operator=', 'reset'):
                L = self.lval(obj, st) if O is None else O
                v = nval(0) if args else leaf(mk('null'))
                self.store(L, v, st, line)
                return ('L', L)
            if name in ('use_count', 'unique'):
                return NI
        k = None
        if obj is not None:
            ot = self.et(obj)
            if e.get('arrow') and ot.get('c') == 'ptr':
                ot = self.ty(ot['pt'])
            if strip_targs(ot.get('qn') or '') not in (cls,) and ot.get('c') == 'rec' and not cls.startswith('std::'):
                pass
            k = self.container_kind(ot) or self.container_kind({'c': 'rec', 'qn': cls, 'rec': ''})
        if k in ('seq', 'assoc'):
            r = self.container_call(k, e, d, name, cls, O, obj, args, st, line, rt, ot)
            if r is not NI:
                return r
        if name in ('find_if', 'find', 'count_if', 'any_of', 'all_of', 'none_of', 'max_element', 'min_element', 'sort', 'copy', 'fill',
                    'transform', 'accumulate', 'reverse', 'for_each', 'remove_if') and d.get('cls') is None:
            vs = [nval(i) for i in range(len(args))]
            r = self.algorithm(name, e, vs, st, line, rt)
            if r is not NI:
                return r
            self.emit('call', qn, st, line, args=tuple(vs), decl=d)
            mod = name in ('sort', 'copy', 'fill', 'transform', 'reverse', 'remove_if', 'for_each')
            if mod:
                for v in vs:
                    for t in leaves(v):
                        if t.op == 'it':
                            loc = t.args[0]
                            cur = self.read1(loc, st)
                            sz = self.getfld(cur, '#size')
                            self.write1(loc, Node(leaf(mk('mut', qn, loc, self.count(qn))), {'#size': sz}), st)
                return None if rt.get('c') == 'void' else leaf(mk('call', qn, *[self.leafx(v) for v in vs]))
            if name in ('find_if', 'find', 'max_element', 'min_element'):
                def fi(xs):
                    if isinstance(xs[0], T) and xs[0].op == 'it':
                        p = mk('pos', qn, *xs)
                        int_terms.add(p)
                        if isinstance(xs[1], T) and xs[1].op == 'it':
                            add_fact(p, t_sub(p, xs[0].args[1]))
                            add_fact(p, t_sub(xs[1].args[1], p))
                        return mk('it', xs[0].args[0], p)
                    return mk('call', qn, *xs)
                return liftn(fi, vs)
            return self.typed(liftn(lambda xs: mk('call', qn, *xs), vs), rt)
        return NI

    def algorithm(self, name, e, vs, st, line, rt):
        """a standard algorithm over a container is the loop it stands for"""
        if name not in ('find_if', 'count_if', 'any_of', 'all_of', 'none_of', 'for_each', 'accumulate') or len(vs) < 3:
            return NotImplemented
        ends = []
        for v in vs[:2]:
            if not isinstance(v, N):
                return NotImplemented
            v = restrict(v, st.g) if v.leaf is None else v
            if not all(t.op == 'it' for t in leaves(v)) or len(leaves(v)) > 12:
                return NotImplemented
            ends.append(v)
        if len(set(t.args[0] for v in ends for t in leaves(v))) != 1:
            return NotImplemented
        fn = vs[3] if name == 'accumulate' and len(vs) == 4 else vs[2] if name != 'accumulate' else None
        if fn is not None and not (isinstance(fn, N) and fn.leaf is not None and fn.leaf.op == 'lambda'):
            return NotImplemented
        C = leaves(ends[0])[0].args[0]
        begin, end = [lift1(lambda t: leaf(t.args[1]), v) for v in ends]
        iv, res = mk('rfi', line, self.fresh()), mk('rfi', line, self.fresh())
        x = State(st.g, st.mem)
        x.mem = dict(st.mem)
        x.mem[iv] = begin
        if name == 'accumulate':
            x.mem[res] = self.typed(vs[2], rt)
        elif name == 'count_if':
            x.mem[res] = leaf(ZERO)
        elif name in ('any_of', 'all_of', 'none_of'):
            x.mem[res] = FALSE if name == 'any_of' else TRUE
        elif name == 'find_if':
            x.mem[res] = end
        s = {'l': e['l']}
        self.algos.setdefault(id(e), (e, s))
        s = self.algos[id(e)][1]

        def cond(y):
            return lift2c(lambda p, q: cmp_leaf('<', p, q), y.mem[iv], end)

        def apply(y, argvals):
            r = self.call_lambda(fn.leaf.args[0], [], y, line, argvals=argvals)
            return self.read(r[1], y) if isinstance(r, tuple) else r

        def body(y):
            el = lift1c(lambda t: mk('elem', C, t), y.mem[iv])
            if name == 'accumulate':
                if fn is None:
                    v = self.arith('+', y.mem[res], self.freeze(self.read(el, y)), rt)
                else:
                    v = self.freeze(apply(y, [y.mem[res], ('L', el)]))
                y.mem[res] = self.typed(v, rt)
                return self.live(y)
            r = apply(y, [('L', el)])
            if name == 'for_each':
                return self.live(y)
            if self.live(y) is None:
                return None
            c = tobool(self.freeze(r))
            t, f = self.split(c, y)
            if name == 'count_if':
                if t is not None:
                    t.mem[res] = add(t.mem[res], leaf(ONE))
                return self.merge_states([t, f])
            if name == 'all_of':
                t, f = f, t
            if t is not None:
                t.mem[res] = t.mem[iv] if name == 'find_if' else TRUE if name == 'any_of' else FALSE
                self.jumps[-1][0].append(t)
            return f

        def inc(y):
            y.mem[iv] = add(y.mem[iv], leaf(ONE))
            return y
        out = self.loop(s, x, cond, body, inc, 'for')
        if out is None:
            st.g = FALSE
            return None
        v = None if name == 'for_each' else out.mem.get(res)
        out.mem.pop(iv, None)
        out.mem.pop(res, None)
        st.g, st.mem = out.g, out.mem
        if name == 'for_each':
            return vs[2]
        if name == 'find_if':
            return lift1c(lambda t: mk('it', C, t), v)
        return v

    def it_step(self, t, n):
        if t.op == 'it':
            return mk('it', t.args[0], t_add(t.args[1], num(n)))
        if t.op == 'mapit':
            return mk('mapit', t.args[0], mk('nextkey', t.args[1]))
        if t.op == 'addr' and t.args[0].op == 'elem':
            return mk('addr', mk('elem', t.args[0].args[0], t_add(t.args[0].args[1], num(n))))
        return mk('itstep', t, n)

    def lib_compare(self, o, a, b, st):
        def f(x, y):
            if x.op == 'mapend' and y.op == 'mapit':
                x, y = y, x
            if x.op == 'mapit' and y.op == 'mapend':
                has = self.map_has(x.args[0], x.args[1], st)
                return NOT(has) if o == '==' else has
            if x.op == 'it' and y.op == 'it' and x.args[0] is y.args[0]:
                return cmp_terms(o, x.args[1], y.args[1], True)
            if o in ('==', '!='):
                r = eq_leaf(x, y)
                return r if o == '==' else NOT(r)
            return bvar(mk('rel', o, x, y))
        return lift2c(f, a, b)

    def map_has(self, c, key, st):
        v = self.read1(mk('fld', c, '#has'), st)
        r = self._getelem(v, key)
        if isinstance(r, N):
            def f(t):
                if t.op == 'true':
                    return TRUE
                if t.op == 'false':
                    return FALSE
                # contents of an empty map
                if t.op == 'elem' and t.args[0].op == 'fld' and t.args[0].args[0].op == 'emptymap':
                    return FALSE
                return bvar(t)
            return lift1(f, r)
        return bvar(mk('has', c, key))

    def iter_of(self, C, t, name, st):
        k = self.container_kind(t)
        if k == 'assoc':
            if name in ('end', 'cend'):
                return lift1c(lambda c: mk('mapend', c), C)
            return lift1c(lambda c: mk('mapit', c, mk('key', c, ZERO)), C)
        if name in ('begin', 'cbegin'):
            return lift1c(lambda c: mk('it', c, ZERO), C)
        n = self.csize(C, t, st)
        return lift2c(lambda c, m: mk('it', c, m), C, n)

    def container_call(self, k, e, d, name, cls, O, obj, args, st, line, rt, ot):
        NI = NotImplemented
        isstr = 'basic_string' in (ot.get('qn') or '')

        def C():
            return O if O is not None else self.lval(obj, st)

        def val(i):
            v = self.rv(args[i], st)
            return leaf(mk('undef', 'void')) if v is None else v

        def setsize(c, n):
            self.write(lift1c(lambda t: mk('fld', t, '#size'), c), n, st)
        if name in ('begin', 'cbegin', 'end', 'cend'):
            return self.iter_of(C(), ot, name, st)
        if name in ('rbegin', 'crbegin', 'rend', 'crend'):
            return NI
        if name in ('size', 'length') and not args:
            c = C()
            return self.csize(c, ot, st)
        if name == 'empty':
            c = C()
            n = self.csize(c, ot, st)
            return lift1c(lambda x: cmp_leaf('==', x, ZERO), n)
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a, st)
            return None
        if name == 'capacity':
            return NI
        if name == 'operator=':
            c = C()
            if args[0]['k'] == 'list':
                self.init_list(args[0], c, st)
                return ('L', c)
            v = val(0)
            self.store(c, v, st, line)
            return ('L', c)
        if isstr:
            return NI
        if name == 'swap':
            a, b = C(), self.lval(args[0], st)
            va, vb = self.read(a, st), self.read(b, st)
            self.store(a, vb, st, line)
            self.store(b, va, st, line)
            return None
        if k == 'seq':
            if name in ('operator[]', 'at'):
                c = C()
                i = self.freeze(val(0))
                if not self.track_index:
                    pass
                self.emit('index', 'seq', st, line, args=(i,), obj=c) if not self.track_index else None
                if '_Bit_reference' in rt.get('s', '') or '_Bit_reference' in rt.get('qn', ''):
                    return lift1c(lambda t: mk('addr', t), self.elem_loc(c, i, st, line, name='seq'))
                return ('L', self.elem_loc(c, i, st, line, name='seq'))
            if name in ('front', 'back'):
                c = C()
                if name == 'front':
                    return ('L', self.elem_loc(c, leaf(ZERO), st, line, name='seq.front'))
                n = self.csize(c, ot, st)
                return ('L', self.elem_loc(c, sub(n, leaf(ONE)), st, line, name='seq.back'))
            if name == 'data':
                return lift1c(lambda t: mk('addr', mk('elem', t, ZERO)), C())
            if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
                c = C()
                n = self.csize(c, ot, st)
                if name.endswith('front'):
                    vs = tuple(self.freeze(val(i)) for i in range(len(args)))
                    self.emit('push', name, st, line, args=vs, obj=c)
                    self.write(c, Node(liftn(lambda xs: mk('cons', *xs), list(vs) + [self.freeze(self.read(c, st))]), {'#size': add(n, leaf(ONE))}), st)
                    return None
                tgt = lift2c(lambda a, b: mk('elem', a, unU(b)), c, n)
                if name == 'push_back':
                    v = val(0)
                    if st.g is FALSE:
                        return None
                    self.emit('push', name, st, line, args=(self.freeze(v),), obj=c, val=v)
                    self.write(tgt, v, st)
                else:
                    self.emplace(tgt, ot, args, st, line)
                    self.emit('push', name, st, line, args=(self.freeze(self.read(tgt, st)),), obj=c, val=self.read(tgt, st))
                setsize(c, add(n, leaf(ONE)))
                return ('L', tgt) if e.get('v') else None
            if name in ('pop_back', 'pop_front'):
                c = C()
                n = self.csize(c, ot, st)
                self.emit('pop', name, st, line, obj=c)
                if name == 'pop_front':
                    v = self.freeze(self.read(c, st))
                    self.write(c, Node(lift1c(lambda t: mk('tail', t), v)), st)
                setsize(c, sub(n, leaf(ONE)))
                return None
            if name == 'clear':
                c = C()
                self.emit('clear', name, st, line, obj=c)
                self.write(c, Node(leaf(mk('default', 'seq')), {'#size': leaf(ZERO)}), st)
                return None
            if name == 'resize':
                c = C()
                n = self.freeze(val(0))
                fv = self.freeze(val(1)) if len(args) > 1 else leaf(mk('default', 'seqelem'))
                cur = self.read(c, st)
                self.emit('resize', name, st, line, args=(n, fv), obj=c)
                old = self.getfld(cur, '#size')
                if isinstance(old, N) and old.leaf is ZERO:
                    b = liftn(lambda xs: mk('fill', xs[0], xs[1]), [fv, n])
                    self.write(c, Node(b, {'#size': n}), st)
                else:
                    b = self.freeze(cur)
                    b = liftn(lambda xs: mk('resized', *xs), [b, n, fv])
                    self.write(c, Node(b, {'#size': n}), st)
                return None
            if name == 'assign':
                c = C()
                vs = [self.freeze(val(i)) for i in range(len(args))]
                self.emit('assign', name, st, line, args=tuple(vs), obj=c)
                if len(args) == 2 and self.et(args[0]).get('c') == 'int':
                    b = liftn(lambda xs: mk('fill', xs[1], xs[0]), vs)
                    self.write(c, Node(b, {'#size': vs[0]}), st)
                else:
                    b = liftn(lambda xs: mk('rangecopy', *xs), vs)
                    self.write(c, Node(b), st)
                return None
            if name in ('erase', 'insert', 'emplace', 'splice', 'merge', 'sort', 'reverse', 'remove_if', 'remove', 'unique'):
                c = C()
                vs = [self.freeze(val(i)) for i in range(len(args))]
                self.emit(name, name, st, line, args=tuple(vs), obj=c)
                old = self.freeze(self.read(c, st))
                self.write(c, Node(liftn(lambda xs: mk('mut', name, *xs), [old] + vs)), st)
                if name in ('erase', 'insert', 'emplace') and vs and any(t.op == 'it' for t in leaves(vs[0])):
                    return vs[0]
                if name == 'splice':
                    return None
                return None if rt.get('c') == 'void' else leaf(mk('call', name, *[self.leafx(v) for v in vs]))
            return NI
        # associative
        if name in ('operator[]', 'at'):
            c = C()
            kk = self.index_key(val(0), self.et(args[0]), st)
            kk = self.freeze(kk)
            if name == 'operator[]':
                hl = lift2c(lambda a, b: mk('elem', mk('fld', a, '#has'), b), c, kk)
                self.write(hl, TRUE, st)
            self.emit('index', 'assoc', st, line, args=(kk,), obj=c)
            return ('L', lift2c(lambda a, b: mk('elem', a, b), c, kk))
        if name in ('find', 'count', 'contains'):
            c = C()
            kk = self.freeze(self.index_key(val(0), self.et(args[0]), st))
            if name == 'find':
                return lift2c(lambda a, b: mk('mapit', a, b), c, kk)
            r = lift2c(lambda a, b: self.map_has(a, b, st), c, kk)
            return r if name == 'contains' else ite(r, leaf(ONE), leaf(ZERO))
        if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            c = C()
            vs = []
            for a in args:
                vs.append(val(a if False else args.index(a)))
            kk = None
            if len(vs) == 1 and isinstance(vs[0], Node) and 'first' in vs[0].kids:
                kk, vv = vs[0].kids['first'], vs[0].kids['second']
            elif len(vs) == 2:
                kk, vv = vs
            self.emit('insert', name, st, line, args=tuple(self.freeze(v) for v in vs), obj=c)
            if kk is not None:
                kt = self.et(args[0])
                kk = self.freeze(self.index_key(kk, kt, st) if kt.get('c') == 'rec' and 'CyclicVec' in kt.get('s', '') else kk)
                hl = lift2c(lambda a, b: mk('elem', mk('fld', a, '#has'), b), c, kk)
                if name == 'insert_or_assign' or 'multi' in cls:
                    self.write(hl, TRUE, st)
                    self.store(lift2c(lambda a, b: mk("elem", a, b), c, kk), vv, st, line)
                else:
                    # an existing entry is kept
                    has = lift2c(lambda a, b: self.map_has(a, b, st), c, kk)
                    x, y = self.split(has, st)
                    if y is not None:
                        self.write(hl, TRUE, y)
                        self.store(lift2c(lambda a, b: mk("elem", a, b), c, kk), vv, y, line)
                        m = self.merge_states([x, y])
                        st.g, st.mem = m.g, m.mem
            else:
                old = self.freeze(self.read(c, st))
                self.write(c, liftn(lambda xs: mk('mut', name, *xs), [old] + [self.freeze(v) for v in vs]), st)
            return leaf(mk('call', name, self.fresh()))
        if name == 'erase':
            c = C()
            v = val(0)
            kt = self.et(args[0])
            kk = self.freeze(self.index_key(v, kt, st) if kt.get('c') == 'rec' and 'CyclicVec' in kt.get('s', '') and 'iterator' not in kt.get('s', '') else v)
            kk = lift1c(lambda t: t.args[1] if t.op == 'mapit' else t, kk)
            self.emit('erase', name, st, line, args=(kk,), obj=c)
            hl = lift2c(lambda a, b: mk('elem', mk('fld', a, '#has'), b), c, kk)
            self.write(hl, FALSE, st)
            return None
        if name == 'clear':
            c = C()
            self.emit('clear', name, st, line, obj=c)
            self.write(c, leaf(mk('emptymap')), st)
            return None
        return NI

    def emplace(self, tgt, ct, args, st, line):
        """construct an element in place"""
        r = self.p.records.get(ct.get('rec'))
        et = None
        if r and r.get('ta') and isinstance(r['ta'][0], dict):
            et = r['_tu'].types[r['ta'][0]['t']]
        vals = [self.rv(a, st) for a in args]
        ats = [self.et(a) for a in args]
        self.construct_type(et, vals, ats, tgt, st, line)

    def construct_type(self, et, vals, ats, tgt, st, line):
        if et is None:
            self.write(tgt, leaf(mk('ctor', '?', *[self.leafx(self.freeze(v)) for v in vals])), st)
            return
        if len(vals) == 1 and (et.get('c') != 'rec' or ats[0].get('s', '').replace('const ', '') == et.get('s', '').replace('const ', '')):
            self.write(tgt, vals[0], st)
            return
        f = self.find_ctor(et, ats)
        if f is not None and tgt.leaf is not None:
            self.call_inline(f, tgt.leaf, None, st, line, argvals=vals)
            return
        q = strip_targs(et.get('qn') or '')
        if q == 'std::pair' and len(vals) == 2:
            self.write(tgt, Node(leaf(mk('default', 'pair')), {'first': vals[0], 'second': vals[1]}), st)
            return
        if not vals:
            self.write(tgt, leaf(mk('default', et.get('s', ''))), st)
            return
        self.write(tgt, leaf(mk('ctor', q, *[self.leafx(self.freeze(v)) for v in vals])), st)

    def find_ctor(self, et, ats):
        cands = []
        for f in self.p.funcs.values():
            if f.kind == 'ctor' and f.cls == et.get('rec') and len(f.params) == len(ats):
                cands.append(f)
        if not cands:
            return None
        if len(cands) == 1:
            return cands[0]

        def score(f):
            s = 0
            for p, a in zip(f.params, ats):
                pt = f.tu.types[p['t']]
                while pt['c'] == 'ref':
                    pt = f.tu.types[pt['pt']]
                if pt['s'].replace('const ', '') == a.get('s', '').replace('const ', ''):
                    s += 2
                elif pt['c'] == a.get('c'):
                    s += 1
            return s
        return max(cands, key=score)


class Frozen(object):
    """hash-consed structured value"""
    _t = {}
    __slots__ = ('val', 'key')

    @staticmethod
    def get(interp, node):
        key = Frozen.keyof(interp, node)
        f = Frozen._t.get(key)
        if f is None:
            f = Frozen()
            f.val = node
            f.key = key
            Frozen._t[key] = f
        return f

    @staticmethod
    def keyof(interp, v):
        if isinstance(v, N):
            return v.id
        return (v.base.id if v.base is not None else None, v.ebase.id if v.ebase is not None else None,
                tuple(sorted((k, Frozen.keyof(interp, x)) for k, x in v.kids.items())),
                tuple((i.id, g.id, Frozen.keyof(interp, x)) for i, g, x in v.arr))

    def __repr__(self):
        def sh(v, d=0):
            if isinstance(v, N):
                return show(v, 6)
            return '{' + ', '.join(['%s:%s' % (k, sh(x, d + 1)) for k, x in sorted(v.kids.items())] +
                                   ['[%s]:%s' % (show(i), sh(x, d + 1)) for i, g, x in v.arr]) + '}'
        return sh(self.val)


class Lam(object):
    _t = {}

    @staticmethod
    def get(e, env, this, tu, name, file, outer, outer_env):
        l = Lam()
        l.e = e
        l.env = env
        l.this = this
        l.tu = tu
        l.name = name
        l.file = file
        l.outer = outer
        l.outer_env = outer_env
        return l


LOCOPS = {'var', 'par', 'this', 'glob', 'deref', 'new', 'tmp', 'fld', 'elem', 'mapent', 'cap', 'rfi', 'exc', 'call', 'key', 'undef',
          'phi', 'out', 'mut'}
bits8 = set()
