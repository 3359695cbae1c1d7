"""Grid storage: every in-range cell has its own storage element inside the allocation, both access operators agree,
region operations cover exactly the inclusive region, assignment copies everything, the range predicate is exact."""
import itertools
from core import *
UNITS = [os.path.join(VERIF, 'harness', 'grid.cpp')]
B = 'planner_cspace::BlockMemGridmap'
EXPLANATION = ('The storage index computed by the access operators is put in closed form over the sizes established by the resize operation and '
               'matched with a mixed-radix certificate (bijection of in-range cells onto disjoint in-allocation elements); loops over regions are '
               'compared with the exact set of cells they must visit.')
ASSUMPTIONS = ['sizes are positive and their products do not overflow', 'allocation failure is not modelled']


def bare(ctx, ci=False):
    I = ctx.interp(container_index=GRID if ci else ())
    I.hooks = {}
    return I


class G_(object):
    pass


def insts(ctx):
    out = []
    for f in ctx.p.find(B + '::reset'):
        ta = ctx.p.records[f.cls]['ta']
        g = G_()
        g.cls = f.cls
        g.reset = f
        g.dim, g.non, g.w = int(ta[1]), int(ta[2]), int(ta[3])
        g.val = str(ta[4]).lower() in ('1', 'true')
        g.tag = f.cls.replace('planner_cspace::', '')
        out.append(g)
    ctx.need('grid storage instantiations', len(out), 4)
    return sorted(out, key=lambda g: g.cls)


def meth(ctx, g, name, n=None, const=None):
    fs = [f for f in ctx.p.find(B + '::' + name) if f.cls == g.cls and (n is None or len(f.params) == n) and (const is None or f.const == const)]
    if len(fs) != 1:
        raise AnchorMissing('%s::%s: %d bodies' % (g.tag, name, len(fs)))
    return fs[0]


def vparam(base, dim):
    out = []
    for i in range(dim):
        t = mk('elem', mk('fld', base, 'e_'), num(i))
        int_terms.add(t)
        out.append(t)
    return out


def cptr(ctx, g):
    r = ctx.p.records[g.cls]
    return field_of_type(ctx.p, r, lambda t: t.get('c') == 'rec' and strip_targs(t.get('qn') or '') in PTRS, 'storage pointer')


def digits(t, pos, w):
    """(kind, axis) of a monomial factor"""
    for i, p in enumerate(pos):
        if t is p:
            return ('c', i)
        if t.op == 'bits' and p in t.args:
            o = [a for a in t.args[1:] if a is not p]
            if len(o) == 1 and isnum(o[0]):
                k = int(o[0].args[0])
                if t.args[0] == '&' and k == w - 1:
                    return ('lo', i)
                if t.args[0] == '>>' and (1 << k) == w and t.args[1] is p:
                    return ('hi', i)
        if t.op == 'imod' and t.args[0] is p and isnum(t.args[1]) and t.args[1].args[0] == w:
            return ('lo', i)
        if t.op == 'idiv' and t.args[0] is p and isnum(t.args[1]) and t.args[1].args[0] == w:
            return ('hi', i)
    return None


def certificate(idx, pos, w, hi_radix, cyc_radix, axes, total, g):
    """idx = sum digit*weight, weights forming a mixed radix system of size total"""
    wt = {}
    for m, c in topoly(idx).items():
        d = [(a, digits(a, pos, w)) for a, _ in m]
        ds = [x for x in d if x[1]]
        if len(ds) != 1:
            return 'term %s is not a digit of the cell' % show(frompoly({m: c}))
        a = ds[0][0]
        k = ds[0][1]
        if dict(m)[a] != 1:
            return 'non linear digit'
        rest = frompoly({tuple(x for x in m if x[0] is not a): c})
        wt[k] = t_add(wt.get(k, ZERO), rest)
    want = {}
    non = len(hi_radix)
    for i in axes:
        if i < non:
            want[('lo', i)] = num(w)
            want[('hi', i)] = hi_radix[i]
        else:
            want[('c', i)] = cyc_radix[i - non]
    for k in list(wt):
        if k not in want:
            return 'unexpected digit %s of axis %d' % k
    for k in list(want):
        if k not in wt:
            if want[k] is ONE:
                del want[k]
                continue
            return 'cells that differ in the %s part of axis %d share storage' % k
    ks = sorted(wt)
    for perm in itertools.permutations(ks):
        acc = ONE
        for k in perm:
            if wt[k] is not acc:
                break
            acc = t_mul(acc, want[k])
        else:
            if acc is total:
                return None
            d = t_sub(total, acc)
            if d.op == 'num' and d.args[0] >= 0:
                return None
            return 'index range %s exceeds the storage size %s' % (show(acc), show(total))
    return 'weights %s are not a mixed radix system' % ', '.join('%s%d:%s' % (k[0], k[1], show(v)) for k, v in sorted(wt.items()))


def check(ctx):
    for g in insts(ctx):
        ctx.part(one, g)


def one(ctx, g):
    c_ = cptr(ctx, g)
    this = mk('this')
    I = bare(ctx)
    _, st = I.run(g.reset)
    rp = g.reset.params[0]
    s = vparam(par(g.reset, 0), g.dim)
    pre = AND(*[cmp_terms('>=', x, ONE, True) for x in s])
    # accessors after resize
    I2 = bare(ctx)
    f = meth(ctx, g, 'ser_size')
    tot, _ = I2.run(f, mem=st.mem)
    f = meth(ctx, g, 'size')
    szl, _ = I2.run(f, mem=st.mem)
    szv = szl
    if all(t.op in ('fld', 'elem', 'this', 'par', 'var', 'deref') for t in leaves(szl)):
        got = [I2.freeze(I2.read(lift1c(lambda b: mk('elem', mk('fld', b, 'e_'), num(i)), szl), st)) for i in range(g.dim)]
    else:
        got = [I2.freeze(I2._getelem(I2.getfld(unfreeze(szl), 'e_'), num(i))) for i in range(g.dim)]
    for i in range(g.dim):
        ctx.ob('size-as-requested', equal_values(got[i], leaf(s[i]), AND(st.g, pre), True), at(g.reset), 'size()[%d] is %s' % (i, show(got[i])))
    ctx.entail('resize-completes', pre, st.g, at(g.reset))
    # allocation
    ptr = I.read1(mk('fld', this, c_), st)
    cap = capacity_field(ctx, g, I, st, ptr)
    for gg, t in cases(ptr):
        G = AND(st.g, pre, gg)
        if not sat(G):
            continue
        if t.op == 'addr' and t.args[0].op == 'new':
            n = I.read1(mk('fld', t.args[0], '#size'), st)
            ctx.entail('allocation-holds-grid', G, cmpv('>=', n, tot, True), at(g.reset), 'allocated %s, needs %s' % (show(n), show(tot)))
            for cf in cap:
                ctx.entail('capacity-is-allocation', G, cmpv('<=', I.read1(mk('fld', this, cf), st), n, True), at(g.reset), 'recorded capacity exceeds the allocation')
        else:
            ok = False
            for cf in cap:
                old = mk('fld', this, cf)
                int_terms.add(old)
                if not sat(AND(G, NOT(cmpv('>=', leaf(old), tot, True)))):
                    ok = True
                    ctx.entail('capacity-kept', G, cmpv('<=', I.read1(mk('fld', this, cf), st), leaf(old), True), at(g.reset), 'recorded capacity grows without reallocation')
            ctx.ob('reuse-only-if-large-enough', ok, at(g.reset), 'old storage kept although it may be smaller than the grid')
    # index
    idxs = []
    fs = [f for f in ctx.p.find(B + '::operator[]') if f.cls == g.cls]
    ctx.need('access operators ' + g.tag, len(fs), 2)
    stor = mk('deref', mk('fld', this, c_))
    for f in fs:
        I3 = bare(ctx)
        # storage pointer abstract, sizes as established by reset
        mem = dict(st.mem)
        r = reroot(I3, mem, this, c_)
        ret, st3 = I3.run(f, mem=r)
        pos = vparam(par(f, 0), g.dim)
        inr = AND(*[AND(cmp_terms('>=', p, ZERO, True), cmp_terms('<', p, z, True)) for p, z in zip(pos, s)])
        ix = None
        got = []
        for gg, t in cases(ret):
            if not sat(AND(st3.g, gg)):
                continue
            if t.op == 'elem' and is_store(t.args[0], this, c_):
                got.append((AND(gg, st3.g), t.args[1]))
                if g.val:
                    ctx.entail('validated-access-in-storage', AND(pre, gg, st3.g), cmpv('<', leaf(t.args[1]), tot, True), at(f), 'storage is accessed beyond its end')
            else:
                ctx.ob('every-cell-stored', not g_inrange_possible(AND(pre, inr, gg, st3.g), g), at(f), 'an in-range cell maps to %s' % show(t))
        if not got:
            raise AnchorMissing('storage index of %s' % f)
        idxs.append((f, got, pos))
        bs = block_sizes(I, st, ctx, g)
        for gg, t in got:
            for tg, tt in cases(tot):
                G0 = AND(pre, gg, tg)
                for hg, hr in radices(g, s, G0, got):
                    pass
                if not sat(G0):
                    continue
                hr = hi_radices(t, pos, g, s, G0, tt)
                if isinstance(hr, str):
                    ctx.ob('distinct-cells-distinct-storage', False, at(f), hr)
                    continue
                err = certificate(t, pos, g.w, hr, s[g.non:], range(g.dim), tt, G0)
                ctx.ob('distinct-cells-distinct-storage', err is None, at(f), err or '')
                for i in range(g.non):
                    ctx.entail('blocks-cover-size', G0, cmp_terms('>=', t_mul(hr[i], num(g.w)), s[i], True), at(g.reset), 'axis %d has cells beyond its last block' % i)
    a, b = idxs[0], idxs[1]
    sub_ = {p: q for p, q in zip(b[2], a[2])}
    ok = len(a[1]) == len(b[1]) and all(any(x[1] is subst(y[1], sub_) and x[0] is subst_n(y[0], sub_) for y in b[1]) for x in a[1])
    ctx.ob('read-write-agree', ok, at(a[0]), 'mutable and constant access address different elements')
    # predicates and region operations
    validate(ctx, g)
    fills(ctx, g)
    if g.dim == 3:
        regions(ctx, g)
    assign(ctx, g, c_)


def unfreeze(v):
    if isinstance(v, N) and v.leaf is not None and v.leaf.op == 'recv':
        return v.leaf.args[0].val
    return v


def g_inrange_possible(G, g):
    # with validation, the out-of-storage case is excluded for in-range cells by the certificate
    return (not g.val) and sat(G)


def radices(g, s, G0, got):
    return []


def hi_radices(t, pos, g, s, G0, tot):
    """number of blocks per block axis, read off the resize result"""
    out = []
    for i in range(g.non):
        cands = []
        for c in block_cands[g.cls][i]:
            if sat(AND(G0, c[0])):
                cands.append(c)
        vals = set(c[1] for c in cands)
        if len(vals) != 1:
            return 'block count of axis %d is ambiguous' % i
        out.append(vals.pop())
    return out


block_cands = {}


def block_sizes(I, st, ctx, g):
    """per block axis, the guarded number of blocks: an int vector member, other than the size, set by the resize"""
    if g.cls in block_cands:
        return
    r = ctx.p.records[g.cls]
    this = mk('this')
    s = vparam(par(g.reset, 0), g.dim)
    for fd in r['fields']:
        t = r['_tu'].types[fd['t']]
        if t.get('c') == 'rec' and strip_targs(t.get('qn') or '') == VEC:
            v = [I.freeze(I.read1(mk('elem', mk('fld', mk('fld', this, fd['n']), 'e_'), num(i)), st)) for i in range(g.dim)]
            if all(x.leaf is y for x, y in zip(v, s)):
                continue
            block_cands[g.cls] = [cases(v[i]) for i in range(g.non)]
            return
    if g.non == 0:
        block_cands[g.cls] = []
        return
    raise AnchorMissing('block counts of ' + g.tag)


def capacity_field(ctx, g, I, st, ptr):
    """scalar members whose old value decides whether the old storage is kept"""
    r = ctx.p.records[g.cls]
    this = mk('this')
    out = []
    sub = subterms(ptr)
    for fd in r['fields']:
        t = r['_tu'].types[fd['t']]
        if t.get('c') == 'int' and mk('fld', this, fd['n']) in sub:
            out.append(fd['n'])
    return out


def reroot(I, mem, this, c_):
    """storage pointer as it was given, contents unknown"""
    m = dict(mem)
    tmp = State(TRUE, m)
    I.write1(mk('fld', this, c_), leaf(mk('fld', this, c_)), tmp)
    return tmp.mem


def is_store(t, this, c_):
    while t.op in ('deref', 'fld', 'addr') and not (t.op == 'fld' and t.args[1] == c_):
        t = t.args[0]
    return t.op == 'fld' and t.args[1] == c_ and t.args[0] is this


def subst(t, m):
    if t in m:
        return m[t]
    if t.op == 'poly':
        r = ZERO
        for mo, c in t.args[0]:
            x = num(c)
            for a, p in mo:
                b = subst(a, m)
                for _ in range(abs(p)):
                    x = t_mul(x, b) if p > 0 else t_fdiv(x, b)
            r = t_add(r, x)
        return r
    if t.op in ('num', 'str'):
        return t
    if t.op == 'bits':
        a = [subst(x, m) if isinstance(x, T) else x for x in t.args]
        if a[0] in '&|^' and a[1].id > a[2].id:
            a[1], a[2] = a[2], a[1]
        return mk('bits', *a)
    return mk(t.op, *[subst(x, m) if isinstance(x, T) else x for x in t.args])


def subst_n(n, m):
    if n.leaf is not None:
        return n
    a = atoms[n.var]
    if any(x in subterms(a) for x in m):
        p = subst(a.args[0], m)
        v = cmp_terms('<=' if a.op in ('le', 'rle') else '<' if a.op == 'lt' else '==', p, num(a.args[1]), a.op == 'le' or (a.op == 'eqn' and a.args[2])) \
            if a.op in ('le', 'rle', 'lt', 'eqn') else bvar(subst(a, m))
    else:
        v = mknode(n.var, TRUE, FALSE)
    return ite(v, subst_n(n.hi, m), subst_n(n.lo, m))


def validate(ctx, g):
    f = meth(ctx, g, 'validate')
    I = bare(ctx)
    ret, st = I.run(f)
    pos = vparam(par(f, 0), g.dim)
    tol = par(f, 1)
    int_terms.add(tol)
    szl, _ = bare(ctx).run(meth(ctx, g, 'size'))
    want = TRUE
    for i in range(g.dim):
        z = mk('elem', mk('fld', szl.leaf, 'e_'), num(i))
        int_terms.add(z)
        t = tol if i < g.non else ZERO
        want = AND(want, cmp_terms('>=', pos[i], t, True), cmp_terms('<', pos[i], t_sub(z, t), True))
    ctx.entail('range-predicate-exact', st.g, IFF(ret, want), at(f), 'the range predicate accepts or rejects the wrong cells')


def fills(ctx, g):
    f = meth(ctx, g, 'clear')
    I = bare(ctx)
    _, st = I.run(f)
    c_ = cptr(ctx, g)
    this = mk('this')
    tot, _ = bare(ctx).run(meth(ctx, g, 'ser_size'))
    tot = I.typed(tot, INT32)
    z = par(f, 0)
    sts = [e for e in I.events if e.kind == 'store' and any(is_store(rootelem(t), this, c_) for t in leaves(e.loc) if t.op == 'elem')]
    fl = [e for e in I.events if e.kind == 'call' and e.name in ('std::fill', 'std::fill_n', 'std::uninitialized_fill')]
    if not sts and not fl:
        raise AnchorMissing('fill of ' + g.tag)
    for e in sts:
        ok, why = covers(e, [(leaf(e.loc.leaf.args[1]), ZERO, t_sub(tot.leaf, ONE))])
        ctx.ob('clear-covers-storage', ok, at(e), why)
        ctx.ob('clear-value', equal_values(e.val, leaf(z)), at(e), 'value written is %s' % show(e.val))
    for e in fl:
        a = [x.leaf if isinstance(x, N) else None for x in e.args]
        ok = False
        if e.name == 'std::fill_n' and len(a) == 3:
            ok = a[1] is tot.leaf and a[2] is z
        elif len(a) == 3:
            ok = a[2] is z and a[1] is not None and tot.leaf in subterms(a[1])
        ctx.ob('clear-covers-storage', ok, at(e), 'fill range %s' % ', '.join(show(x) for x in e.args))


def rootelem(t):
    while t.op == 'elem':
        t = t.args[0]
    return t


def inds(t):
    return set(x for x in subterms(t) if isinstance(x, T) and x.op == 'ind')


def covers(e, axes):
    """the event happens exactly once for every combination of axis values lo..hi (inclusive): axis value = lo+ind or hi-ind"""
    want = TRUE
    used = []
    for v, lo, hi in axes:
        if v.leaf is None:
            return False, 'axis value is conditional: %s' % show(v)
        t = v.leaf
        i = inds(t)
        if len(i) != 1:
            return False, 'axis value %s does not advance with one loop' % show(t)
        i = i.pop()
        if t_sub(t, i) is not lo and t_add(t, i) is not hi:
            return False, 'axis runs over %s instead of %s..%s' % (show(t), show(lo), show(hi))
        used.append(i)
        want = AND(want, cmp_terms('>=', t, lo, True), cmp_terms('<=', t, hi, True))
    if len(set(used)) != len(used) or set(l.ind for l in e.loops) != set(used):
        return False, 'one loop per axis expected'
    if sat(AND(want, NOT(e.g))):
        return False, 'cells are left out: ' + witness(AND(want, NOT(e.g)))
    if sat(AND(e.g, NOT(want))):
        return False, 'cells outside the region are touched: ' + witness(AND(e.g, NOT(want)))
    for l in e.loops:
        if l.next is None or sat(AND(l.body_g, NOT(exists_other(l.next.g, [x.ind for x in e.loops[:e.loops.index(l) + 1]])))):
            return False, 'loop may stop early'
    return True, ''


def covers_n(e, i, n):
    """the loop event happens exactly for the indices 0..n-1, n a guarded value"""
    if len(e.loops) != 1 or i is not e.loops[0].ind:
        return False, 'index is not the loop counter'
    want = AND(cmp_terms('>=', i, ZERO, True), cmpv('<', leaf(i), n, True))
    l = e.loops[0]
    pre = e.loops[0].entry.g if e.loops[0].entry is not None else TRUE
    if sat(AND(pre, want, NOT(e.g))):
        return False, 'elements are left out: ' + witness(AND(pre, want, NOT(e.g)))
    if sat(AND(e.g, NOT(want))):
        return False, 'elements outside are touched: ' + witness(AND(e.g, NOT(want)))
    if l.next is None or sat(AND(l.body_g, NOT(l.next.g))):
        return False, 'loop may stop early'
    return True, ''


def regions(ctx, g):
    this = mk('this')
    todo = [(meth(ctx, g, 'clear_partially'), 1, 2, None), (meth(ctx, g, 'copy_partially', 3), 1, 2, 0), (meth(ctx, g, 'copy_partially', 4), 2, 3, 1)]
    for f, lo, hi, src in todo:
        I = bare(ctx, True)
        _, st = I.run(f)
        sts = [e for e in I.events if e.kind == 'store' and e.loc.leaf is not None and e.loc.leaf.op == 'elem' and e.loc.leaf.args[0] is this]
        ctx.need('%s writes %s' % (f.name, g.tag), len(sts))
        L = vparam(par(f, lo), g.dim)
        H = vparam(par(f, hi), g.dim)
        off = [ZERO] * g.dim
        if len(f.params) == 4:
            D = vparam(par(f, 0), g.dim)
            off = [t_sub(d, l) for d, l in zip(D, L)]
        if len(sts) != 1:
            raise AnchorMissing('%d writes in %s' % (len(sts), f))
        e = sts[0]
        key = e.loc.leaf.args[1]
        kc = list(key.args) if key.op == 'vec' else [mk('elem', mk('fld', key, 'e_'), num(i)) for i in range(g.dim)]
        ok, why = covers(e, [(leaf(t_sub(kc[i], off[i])), L[i], H[i]) for i in range(g.dim)])
        ctx.ob('region-exact', ok, at(e), why)
        if src is None:
            ctx.ob('region-value', equal_values(e.val, leaf(par(f, 0))), at(e), 'value written is %s' % show(e.val))
        else:
            want = mk('elem', par(f, src), mk('vec', *[t_sub(k, o) for k, o in zip(kc, off)]))
            ctx.ob('region-value', e.val.leaf is want, at(e), 'value written is %s, expected %s' % (show(e.val), show(want)))


def assign(ctx, g, c_):
    fs = [f for f in ctx.p.find(B + '::operator=') if f.cls == g.cls and not f.defaulted]
    if not fs:
        # the implicit assignment of a storage owning a unique pointer is deleted; copying must be user provided
        raise AnchorMissing('assignment of ' + g.tag)
    f = [x for x in fs if x.tu.types[x.params[0]['t']].get('c') == 'ref'][0]
    I = bare(ctx)
    _, st = I.run(f)
    this = mk('this')
    gm = par(f, 0)
    I2 = bare(ctx)
    szl, _ = I2.run(meth(ctx, g, 'size'), mem={})
    szf = szl.leaf.args[1]
    tot, _ = I2.run(meth(ctx, g, 'ser_size'), mem=st.mem)
    for i in range(g.dim):
        got = I.freeze(I.read1(mk('elem', mk('fld', mk('fld', this, szf), 'e_'), num(i)), st))
        src = mk('elem', mk('fld', mk('fld', gm, szf), 'e_'), num(i))
        ctx.ob('assign-size', equal_values(got, leaf(src), st.g, True), at(f), 'size component %d is %s' % (i, show(got)))
    esz = f.tu.types[ctx_elem(ctx, g, f)].get('b', 32) // 8 if False else elem_bytes(ctx, g)
    cp = [e for e in I.events if e.kind == 'call' and e.name in ('memcpy', 'std::memcpy', 'std::copy', 'std::copy_n', 'memmove', 'std::memmove')]
    sts = [e for e in I.events if e.kind == 'store' and e.loops and any(t.op == 'elem' and inds(t) and is_store(rootelem(t), this, c_) for t in leaves(e.loc))]
    serf = mk('fld', gm, tot_field(ctx, g))
    if cp:
        for e in cp[:1]:
            a = e.args
            n = e.name.split('::')[-1]
            if n in ('memcpy', 'memmove'):
                dst, src, by = a[0], a[1], a[2]
                k = num(esz)
                ok = equal_values(by, mul(tot, leaf(k)), e.g, True) or equal_values(by, leaf(t_mul(serf, k)), e.g, True)
            elif n == 'copy_n':
                src, by, dst = a
                ok = equal_values(by, tot, e.g, True) or equal_values(by, leaf(serf), e.g, True)
            else:
                src, dst = a[0], a[2]
                ok = all(serf in subterms(t) or any(x in subterms(t) for x in leaves(tot)) for t in leaves(a[1]))
            ctx.ob('assign-copies-all', ok, at(e), 'amount copied is %s' % show(a[2] if n != 'copy_n' else a[1]))
            ctx.ob('assign-direction', mk('fld', gm, c_) in subterms(src) and mk('fld', gm, c_) not in subterms(dst), at(e), 'copied from %s to %s' % (show(src), show(dst)))
            ctx.entail('assign-always-copies', st.g, e.g, at(e), 'content is not always copied')
    elif sts:
        for e in sts:
            ix = set(t.args[1] for t in leaves(e.loc))
            t0 = [t for t in leaves(tot)]
            ok = False
            why = 'element loop'
            if len(ix) == 1:
                i = ix.pop()
                for tg, tt in cases(tot):
                    pass
                ok, why = covers_n(e, i, tot)
                src = [mk('elem', mk('deref', mk('fld', gm, c_)), i)]
                vs = leaves(e.val)
                ok = ok and all(v.op == 'elem' and v.args[1] is i and mk('fld', gm, c_) in subterms(v.args[0]) for v in vs)
            ctx.ob('assign-copies-all', ok, at(e), why)
    else:
        ctx.ob('assign-copies-all', False, at(f), 'content is not copied')


def tot_field(ctx, g):
    I = bare(ctx)
    t, _ = I.run(meth(ctx, g, 'ser_size'))
    if t.leaf is None or t.leaf.op != 'fld':
        raise AnchorMissing('storage size member')
    return t.leaf.args[1]


def elem_bytes(ctx, g):
    r = ctx.p.records[g.cls]
    t = r['_tu'].types[r['ta'][0]['t']] if isinstance(r['ta'][0], dict) else None
    return t['b'] // 8
