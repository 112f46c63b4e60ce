"""Reference definitions of MiniZinc builtins and global constraints.

Each definition follows the documented meaning, not the library's decomposition."""
import itertools
import re
import z3
from fractions import Fraction
from . import smt as S
from .smt import And, Or, Not, Implies, Iff, Xor, SI, Unsupported, is_int, is_bool, is_float
from .interp import (Arr, Set, Rng, FRng, Opt, ABSENT, Tup, Rec, eq, leq, less, ite, num, member, card, subset, setop,
                     parset, toset, isset, toopt, mkset, allidx, arrlex, setle)

F = {}


def d(*names):
    def w(f):
        for n in names:
            F[n] = f
        return f
    return w


def ints(a):
    if isset(a):
        return parset(a)
    return [num(x) for x in a.e]


def hasopt(a):
    return any(isinstance(x, Opt) for x in a.e)


def dflt(x, u):
    if isinstance(x, Opt):
        return u if x.p is False else ite(x.p, num(x.v) if not is_bool(x.v) or not isinstance(u, bool) else x.v, u)
    return x


def total(xs):
    r = 0
    for x in xs:
        x = num(x)
        r = S.rop('+', r, x) if is_float(r) or is_float(x) else S.add(r, x)
    return r


def isdiff(x, y):
    return Not(eq(x, y))


def cnt(conds):
    return S.isum([S.b2i(c) for c in conds])


# ---------------------------------------------------------------- arithmetic
@d('bool2int')
def _(I, x):
    if isinstance(x, Arr):
        return Arr(x.dims, [num(v) for v in x.e])
    if isinstance(x, Opt):
        return Opt(x.p, None if x.v is None else num(x.v))
    return num(x)


@d('int2float', 'bool2float')
def _(I, x):
    if isinstance(x, Arr):
        return Arr(x.dims, [S.rv(num(v)) for v in x.e])
    return S.rv(num(x))


@d('abs')
def _(I, x):
    if isinstance(x, Opt):
        return x if x.p is False else Opt(x.p, F['abs'](I, x.v))
    if is_float(x):
        if isinstance(x, Fraction):
            return abs(x)
        return z3.If(x < 0, -x, x)
    return S.iabs(num(x))


@d('pow')
def _(I, x, y):
    if is_float(x) or is_float(y):
        return I.fpow(x, y)
    return I.pow(num(x), num(y))


def mm(I, args, ismin):
    if len(args) == 2:
        a, b = args
        if is_float(a) or is_float(b):
            c = S.rle(a, b)
            return S.rite(c, a, b) if ismin else S.rite(c, b, a)
        return S.imin(num(a), num(b)) if ismin else S.imax(num(a), num(b))
    a = args[0]
    if isset(a):
        if isinstance(a, Rng):
            I.require(not (a.lo is not None and a.hi is not None and a.lo > a.hi))
            return a.lo if ismin else a.hi
        vs = a.vals()
        I.require(Or(list(a.m.values())))
        if not vs:
            return 0
        r = vs[-1] if ismin else vs[0]
        for v in (reversed(vs) if ismin else vs):
            r = S.ite(a.m[v], v, r)
        return r
    I.require(Or([x.p if isinstance(x, Opt) else True for x in a.e]))
    r = None
    for x in a.e:
        x = toopt(x)
        if x.p is False:
            continue
        if r is None:
            r = x
            continue
        m = mm(I, (r.v, x.v), ismin)
        r = Opt(Or(r.p, x.p), ite(And(r.p, x.p), m, ite(r.p, r.v, x.v)))
    return 0 if r is None else r.v


@d('min')
def _(I, *a): return mm(I, a, True)
@d('max')
def _(I, *a): return mm(I, a, False)
@d('minimum')
def _(I, m, x): return eq(num(m), mm(I, (x,), True))
@d('maximum')
def _(I, m, x): return eq(num(m), mm(I, (x,), False))


def weak(I, x, ismin):
    save, I.ctx = I.ctx, type(I.ctx)()
    v = mm(I, (x,), ismin)
    I.ctx = save
    return Opt(Or([y.p if isinstance(y, Opt) else True for y in x.e]), v)
@d('min_weak')
def _(I, x): return weak(I, x, True)
@d('max_weak')
def _(I, x): return weak(I, x, False)


@d('sum')
def _(I, x): return total(dflt(v, 0) for v in (x.e if isinstance(x, Arr) else parset(x)))


@d('product')
def _(I, x):
    r = 1
    for v in x.e:
        v = num(dflt(v, 1))
        r = S.rop('*', r, v) if is_float(r) or is_float(v) else S.mul(r, v)
    return r


@d('forall')
def _(I, x): return And([dflt(v, True) for v in x.e])
@d('exists')
def _(I, x): return Or([dflt(v, False) for v in x.e])


def anyabsent(x):
    return Or([Not(v.p) for v in x.e if isinstance(v, Opt)])


def core(x):
    return [(v.v if v.v is not None else False) if isinstance(v, Opt) else v for v in x.e]


@d('xorall')
def _(I, x):
    r = False
    for v in core(x):
        r = Xor(r, v)
    return Or(anyabsent(x), r)


@d('iffall')
def _(I, x):
    r = True
    for v in core(x):
        r = Xor(r, v)
    return Or(anyabsent(x), r)


@d('clause')
def _(I, x, y):
    return Or(anyabsent(x), anyabsent(y), Or([v for v in core(x)] + [Not(v) for v in core(y)]))


@d('sqrt')
def _(I, x):
    raise Unsupported('sqrt')


@d('floor')
def _(I, x):
    if isinstance(x, Fraction):
        return x.numerator // x.denominator
    raise Unsupported('floor')


@d('ceil')
def _(I, x):
    if isinstance(x, Fraction):
        return -((-x.numerator) // x.denominator)
    raise Unsupported('ceil')


@d('round')
def _(I, x):
    if isinstance(x, Fraction):
        a = abs(x)
        r = (a + Fraction(1, 2)).__floor__()
        return r if x >= 0 else -r
    raise Unsupported('round')


# ---------------------------------------------------------------- sets
@d('card')
def _(I, s): return card(s)


@d('array_union')
def _(I, x):
    r = Set({})
    for s in x.e:
        if isinstance(s, Opt):
            s = Set({k: And(s.p, c) for k, c in toset(s.v).m.items()})
        r = setop('union', r, s)
    return r


@d('array_intersect')
def _(I, x):
    if not x.e:
        raise Unsupported("empty array_intersect")
    r = x.e[0]
    for s in x.e[1:]:
        r = setop('intersect', r, s)
    return r


@d('array2set')
def _(I, x):
    m = {}
    for v in x.e:
        v = toopt(v)
        if v.p is False:
            continue
        w = num(v.v)
        for k in range(S.lo(w), S.hi(w) + 1):
            m[k] = Or(m.get(k, False), And(v.p, S.ceq(w, k)))
    return Set(m)


@d('set2array')
def _(I, s):
    v = parset(s)
    return Arr([(1, len(v))], v)


# ---------------------------------------------------------------- arrays
@d('length')
def _(I, x): return len(x.e) if isinstance(x, Arr) else card(x)


def rng(dd):
    return Rng(dd[0], dd[1])


@d('index_set')
def _(I, x):
    if isset(x):
        return Rng(1, card(x))
    return rng(x.dims[0])


for k in range(1, 4):
    for n in range(2, 4):
        if k <= n:
            F['index_set_%dof%d' % (k, n)] = (lambda k: lambda I, x: rng(x.dims[k - 1]))(k)


def arrnd(I, args, n):
    if len(args) == 1:
        a = args[0]
        if isset(a):
            v = parset(a)
            return Arr([(1, len(v))], v)
        return Arr([(1, len(a.e))], a.e)
    ds = []
    tot = 1
    for s in args[:-1]:
        v = parset(s)
        if v and v != list(range(v[0], v[-1] + 1)):
            raise Unsupported("index set with holes")
        ds.append((v[0], v[-1]) if v else (1, 0))
        tot *= len(v)
    a = args[-1]
    if isset(a):
        a = F['set2array'](I, a)
    I.require(tot == len(a.e))
    if tot != len(a.e):
        raise Unsupported("arrayNd size mismatch")
    return Arr(ds, a.e)


for n in range(1, 5):
    F['array%dd' % n] = (lambda n: lambda I, *a: arrnd(I, a, n))(n)


@d('arrayXd')
def _(I, x, y): return Arr(x.dims, y.e)


@d('reverse')
def _(I, x): return Arr(x.dims, list(reversed(x.e)))


@d('concat')
def _(I, x): raise Unsupported('concat')


@d('row')
def _(I, x, r):
    l, h = x.dims[1]
    return Arr([(l, h)], [I.access(x, [r, j]) for j in range(l, h + 1)])


@d('col')
def _(I, x, c):
    l, h = x.dims[0]
    return Arr([(l, h)], [I.access(x, [j, c]) for j in range(l, h + 1)])


@d('has_element')
def _(I, e, x): return Or([eq(v, e) for v in x.e])


@d('has_index')
def _(I, e, x): return member(e, rng(x.dims[0]))


def keyle(a, b):
    return leq(a, b)


def sortnet(keys, idxs=None):
    """stable sorted permutation for parameter keys only"""
    ks = [num(k) for k in keys]
    if any(not isinstance(k, (int, Fraction, str)) for k in ks):
        return None
    return sorted(range(len(ks)), key=lambda i: ks[i])


def rank(keys):
    """rank[i] = position of element i in the stable sort"""
    n = len(keys)
    r = []
    for i in range(n):
        c = [leq(keys[j], keys[i]) for j in range(i)] + [less(keys[j], keys[i]) for j in range(i + 1, n)]
        x = cnt(c)
        r.append(S.clip(x, 0, n - 1) if isinstance(x, SI) else x)
    return r


def bysort(keys, vals):
    rk = rank(keys)
    out = []
    for p in range(len(vals)):
        v = None
        for i in reversed(range(len(vals))):
            c = S.ceq(rk[i], p)
            if c is False:
                continue
            v = vals[i] if v is None else ite(c, vals[i], v)
        out.append(v)
    return out


@d('sort')
def _(I, x, y=None):
    if y is not None:
        s = bysort(x.e, x.e)
        return And([eq(a, b) for a, b in zip(s, y.e)])
    return Arr([(1, len(x.e))] if False else x.dims, bysort(x.e, x.e))


@d('sort_by')
def _(I, x, y): return Arr(x.dims, bysort(y.e, x.e))


@d('arg_sort')
def _(I, x, p=None):
    l, h = x.dims[0]
    r = bysort(x.e, list(range(l, h + 1)))
    if p is not None:
        return And([eq(a, b) for a, b in zip(r, p.e)])
    return Arr([(1, len(r))], r)


def argext(I, x, ismax, y=None):
    l, h = x.dims[0]
    if not x.e:
        I.require(False)
        return l
    I.require(Or([toopt(v).p for v in x.e]))
    best = None
    r = l
    for i, v in enumerate(x.e):
        v = toopt(v)
        if v.p is False:
            continue
        if best is None:
            best, r = v, l + i
            continue
        b = And(v.p, Or(Not(best.p), less(best.v, v.v) if ismax else less(v.v, best.v)))
        r = S.ite(b, l + i, r)
        best = Opt(Or(best.p, v.p), ite(b, v.v, best.v))
    return r


@d('arg_max')
def _(I, x, *y): return argext(I, x, True)
@d('arg_min')
def _(I, x, *y): return argext(I, x, False)
@d('maximum_arg')
def _(I, x, z): return eq(argext(I, x, True), z)
@d('minimum_arg')
def _(I, x, z): return eq(argext(I, x, False), z)


@d('arg_val')
def _(I, x, v, y=None):
    l, h = x.dims[0]
    I.require(Or([eq(a, v) for a in x.e]))
    r = h
    for i in reversed(range(len(x.e))):
        r = S.ite(eq(x.e[i], v), l + i, r)
    return r


# ---------------------------------------------------------------- option types
@d('occurs')
def _(I, x): return x.p if isinstance(x, Opt) else True
@d('absent')
def _(I, x): return Not(x.p) if isinstance(x, Opt) else False


@d('deopt')
def _(I, x):
    if isinstance(x, Arr):
        return Arr(x.dims, [F['deopt'](I, v) for v in x.e])
    if not isinstance(x, Opt):
        return x
    I.require(x.p)
    if x.v is None:
        return 0      # undefined: the value is irrelevant
    return x.v


@d('reverse_map_var_opt')
def _(I, b, v): return Opt(b, v)


def weakop(op):
    def f(I, x, y):
        return I.bin(op, x, y)
    return f


def strictopt(op):
    def f(I, x, y):
        x, y = toopt(x), toopt(y)
        p = And(x.p, y.p)
        if p is False:
            return ABSENT
        save, I.ctx = I.ctx, type(I.ctx)()
        v = I.bin(op, x.v, y.v)
        mine, I.ctx = I.ctx, save
        for c in mine.defs:
            I.require(Implies(p, c))
        return Opt(p, v)
    return f


for op in ('+', '-', '*', 'div'):
    F['~' + op] = strictopt(op)
F['~='] = weakop('~=')
F['~!='] = weakop('~!=')
for op in ('+', '-', '*', 'div', 'mod', '<', '<=', '>', '>=', '=', '!=', '/\\', '\\/', '->', '<-', '<->', 'xor', 'in',
           'subset', 'superset', 'union', 'intersect', 'diff', 'symdiff', '^', '++', '..'):
    F[op] = weakop(op)


@d('not')
def _(I, x): return Not(x)


# ---------------------------------------------------------------- enums
@d('enum2int', 'to_int')
def _(I, x): return x


@d('to_enum')
def _(I, s, x):
    if isinstance(x, Arr):
        return Arr(x.dims, [F['to_enum'](I, s, v) for v in x.e])
    if isset(x):
        return x
    I.require(member(x, s))
    return x


@d('enum_next')
def _(I, *a):
    x = num(a[-1])
    if len(a) == 2:
        vs = parset(a[0])
        I.require(S.lt(x, vs[-1]))
        return S.add(x, 1)
    raise Unsupported('enum_next/1')


@d('enum_prev')
def _(I, *a):
    x = num(a[-1])
    if len(a) == 2:
        vs = parset(a[0])
        I.require(S.lt(vs[0], x))
        return S.sub(x, 1)
    raise Unsupported('enum_prev/1')


# ---------------------------------------------------------------- annotations-like
for n in ('symmetry_breaking_constraint', 'redundant_constraint', 'implied_constraint'):
    F[n] = lambda I, c: c


@d('implies')
def _(I, a, b): return Implies(a, b)


# ---------------------------------------------------------------- globals
def pairs(xs):
    return itertools.combinations(range(len(xs)), 2)


@d('all_different', 'alldifferent', 'all_different_int', 'all_different_set')
def _(I, x):
    if hasopt(x):
        o = [toopt(v) for v in x.e]
        return And([Or(Not(a.p), Not(b.p), isdiff(a.v, b.v)) for a, b in itertools.combinations(o, 2)])
    return And([isdiff(a, b) for a, b in itertools.combinations(x.e, 2)])


@d('all_different_except_0', 'alldifferent_except_0')
def _(I, x): return And([Or(eq(a, 0), eq(b, 0), isdiff(a, b)) for a, b in itertools.combinations(ints(x), 2)])


@d('all_different_except', 'alldifferent_except')
def _(I, x, s): return And([Or(member(a, s), member(b, s), isdiff(a, b)) for a, b in itertools.combinations(ints(x), 2)])


@d('all_equal', 'all_equal_int', 'all_equal_set')
def _(I, x):
    if hasopt(x):
        o = [toopt(v) for v in x.e]
        return And([Or(Not(a.p), Not(b.p), eq(a.v, b.v)) for a, b in itertools.combinations(o, 2)])
    return And([eq(a, b) for a, b in itertools.combinations(x.e, 2)])


@d('symmetric_all_different')
def _(I, x):
    l, h = x.dims[0]
    xs = ints(x)
    inr = And([And(S.le(l, v), S.le(v, h)) for v in xs])
    return And(inr, *[Implies(S.ceq(xs[i], l + j), S.ceq(xs[j], l + i)) for i in range(len(xs)) for j in range(len(xs))])


@d('all_disjoint')
def _(I, x): return And([F['disjoint'](I, a, b) for a, b in itertools.combinations(x.e, 2)])


@d('disjoint')
def _(I, a, b):
    a, b = toset(a), toset(b)
    return And([Not(And(a.has(k), b.has(k))) for k in a.m if k in b.m])


@d('among')
def _(I, *a):
    if len(a) == 3:
        n, x, v = a
        return eq(num(n), cnt([member(y, v) for y in x.e]))
    x, v = a
    return cnt([member(y, v) for y in x.e])


def occ(x, v):
    if isset(v):
        return [eq(y, v) for y in x.e]
    return [eq(y, v) for y in x.e]


def cmpc(f):
    return f


@d('at_least', 'atleast', 'at_least_int', 'at_least_set')
def _(I, n, x, v): return S.le(num(n), cnt(occ(x, v)))
@d('at_most', 'atmost', 'at_most_int', 'at_most_set')
def _(I, n, x, v): return S.le(cnt(occ(x, v)), num(n))
@d('exactly', 'exactly_int', 'exactly_set')
def _(I, n, x, v): return S.ceq(cnt(occ(x, v)), num(n))
@d('at_most1', 'atmost1')
def _(I, s): return And([S.le(card(setop('intersect', a, b)), 1) for a, b in itertools.combinations(s.e, 2)])


@d('count')
def _(I, x, *a):
    if not a:
        return cnt([dflt(v, False) for v in x.e])
    if len(a) == 1:
        return cnt(occ(x, a[0]))
    return S.ceq(num(a[1]), cnt(occ(x, a[0])))


@d('count_eq')
def _(I, x, y, c): return S.ceq(num(c), cnt(occ(x, y)))
@d('count_neq')
def _(I, x, y, c): return Not(S.ceq(num(c), cnt(occ(x, y))))
@d('count_leq')
def _(I, x, y, c): return S.le(num(c), cnt(occ(x, y)))
@d('count_geq')
def _(I, x, y, c): return S.le(cnt(occ(x, y)), num(c))
@d('count_lt')
def _(I, x, y, c): return S.lt(num(c), cnt(occ(x, y)))
@d('count_gt')
def _(I, x, y, c): return S.lt(cnt(occ(x, y)), num(c))


def load(bins, ws, b):
    return S.isum([S.mul(num(w), S.b2i(S.ceq(num(y), b))) for y, w in zip(bins, ws)])


@d('bin_packing')
def _(I, c, bn, w):
    vs = set()
    for y in ints(bn):
        vs |= set(range(S.lo(y), S.hi(y) + 1))
    return And([S.le(load(bn.e, w.e, b), num(c)) for b in sorted(vs)])


@d('bin_packing_capa')
def _(I, c, bn, w):
    l, h = c.dims[0]
    return And([And(S.le(l, y), S.le(y, h)) for y in ints(bn)] +
               [S.le(load(bn.e, w.e, b), num(c.e[b - l])) for b in range(l, h + 1)])


@d('bin_packing_load')
def _(I, *a):
    if len(a) == 2:
        raise Unsupported("bin_packing_load/2")
    ld, bn, w = a
    l, h = ld.dims[0]
    return And([And(S.le(l, y), S.le(y, h)) for y in ints(bn)] +
               [S.ceq(load(bn.e, w.e, b), num(ld.e[b - l])) for b in range(l, h + 1)])


def follow(xs, l, start, n):
    """x^n applied to start (list of successor ints over l..)"""
    cur = start
    for _ in range(n):
        r = xs[0]
        for j in range(len(xs)):
            r = S.ite(S.ceq(cur, l + j), xs[j], r)
        cur = r
    return cur


def inrange(xs, l, h):
    return And([And(S.le(l, v), S.le(v, h)) for v in xs])


@d('circuit')
def _(I, x):
    l, h = x.dims[0]
    xs = ints(x)
    n = len(xs)
    if n == 0:
        return True
    xs2 = [S.imin(S.imax(v, l), h) for v in xs]
    c = [inrange(xs, l, h)]
    c += [isdiff(a, b) for a, b in itertools.combinations(xs, 2)]
    cur = l
    for k in range(1, n):
        cur = follow(xs2, l, cur, 1)
        c.append(Not(S.ceq(cur, l)))
    return And(c)


@d('subcircuit')
def _(I, x):
    l, h = x.dims[0]
    xs = ints(x)
    n = len(xs)
    if n == 0:
        return True
    c = [inrange(xs, l, h)] + [isdiff(a, b) for a, b in itertools.combinations(xs, 2)]
    # reachability from every non-loop node to every other non-loop node
    xs2 = [S.imin(S.imax(v, l), h) for v in xs]
    on = [Not(S.ceq(xs[i], l + i)) for i in range(n)]
    for i in range(n):
        reach = [False] * n
        cur = l + i
        for k in range(n):
            for j in range(n):
                reach[j] = Or(reach[j], S.ceq(cur, l + j))
            cur = follow(xs2, l, cur, 1)
        for j in range(n):
            c.append(Implies(And(on[i], on[j]), reach[j]))
    return And(c)


@d('cumulative')
def _(I, s, dd, r, b):
    ss, ds, rs = s.e, ints(dd), ints(r)
    b = num(b)
    ob = [toopt(v) for v in ss]
    c = []
    c += [S.le(0, v) for v in ds] + [S.le(0, v) for v in rs]
    live = [i for i in range(len(ob)) if ob[i].p is not False]
    if not live:
        return And(c)
    t0 = min(S.lo(num(ob[i].v)) for i in live)
    t1 = max(S.hi(num(ob[i].v)) for i in live)
    if t1 - t0 > 60:
        # the load only grows when a task of non-zero length starts: look at those moments only
        for j in live:
            tj = num(ob[j].v)
            on = [And(ob[i].p, S.le(num(ob[i].v), tj), S.lt(tj, S.add(num(ob[i].v), ds[i]))) for i in live]
            c.append(Implies(And(ob[j].p, S.lt(0, ds[j])), S.le(S.isum([S.mul(S.b2i(a), rs[i]) for a, i in zip(on, live)]), b)))
        if S.lo(b) < 0:
            raise Unsupported('negative capacity over a long horizon')
        return And(c)
    for t in range(t0, t1 + 1):
        act = [S.b2i(And(ob[i].p, S.le(num(ob[i].v), t), S.lt(t, S.add(num(ob[i].v), ds[i])))) for i in live]
        anyact = Or([And(ob[i].p, S.le(num(ob[i].v), t), S.lt(t, S.add(num(ob[i].v), ds[i]))) for i in live])
        c.append(S.le(S.isum([S.mul(a, rs[i]) for a, i in zip(act, live)]), b) if S.lo(b) >= 0 else
                 Implies(anyact, S.le(S.isum([S.mul(a, rs[i]) for a, i in zip(act, live)]), b)))
    return And(c)


@d('disjunctive')
def _(I, s, dd):
    o, ds = [toopt(v) for v in s.e], ints(dd)
    c = [S.le(0, v) for v in ds]
    for i, j in pairs(o):
        c.append(Or(Not(o[i].p), Not(o[j].p), S.ceq(ds[i], 0), S.ceq(ds[j], 0),
                    S.le(S.add(num(o[i].v), ds[i]), num(o[j].v)), S.le(S.add(num(o[j].v), ds[j]), num(o[i].v))))
    return And(c)


@d('disjunctive_strict')
def _(I, s, dd):
    o, ds = [toopt(v) for v in s.e], ints(dd)
    c = [S.le(0, v) for v in ds]
    for i, j in pairs(o):
        c.append(Or(Not(o[i].p), Not(o[j].p),
                    S.le(S.add(num(o[i].v), ds[i]), num(o[j].v)), S.le(S.add(num(o[j].v), ds[j]), num(o[i].v))))
    return And(c)


def nooverlap(xi, wi, xj, wj):
    return Or([Or(S.le(S.add(a, p), b), S.le(S.add(b, q), a)) for a, p, b, q in zip(xi, wi, xj, wj)])


@d('diffn')
def _(I, x, y, dx, dy):
    X, Y, A, B = ints(x), ints(y), ints(dx), ints(dy)
    return And([nooverlap((X[i], Y[i]), (A[i], B[i]), (X[j], Y[j]), (A[j], B[j])) for i, j in pairs(X)])


@d('diffn_nonstrict')
def _(I, x, y, dx, dy):
    X, Y, A, B = ints(x), ints(y), ints(dx), ints(dy)
    return And([Or(S.ceq(A[i], 0), S.ceq(A[j], 0), S.ceq(B[i], 0), S.ceq(B[j], 0),
                   nooverlap((X[i], Y[i]), (A[i], B[i]), (X[j], Y[j]), (A[j], B[j]))) for i, j in pairs(X)])


def rows(a):
    n = a.dims[1][1] - a.dims[1][0] + 1
    return [[num(v) for v in a.e[k * n:(k + 1) * n]] for k in range(a.dims[0][1] - a.dims[0][0] + 1)]


@d('diffn_k')
def _(I, x, dx):
    X, A = rows(x), rows(dx)
    return And([nooverlap(X[i], A[i], X[j], A[j]) for i, j in pairs(X)])


@d('diffn_nonstrict_k')
def _(I, x, dx):
    X, A = rows(x), rows(dx)
    return And([Or([S.ceq(v, 0) for v in A[i] + A[j]] + [nooverlap(X[i], A[i], X[j], A[j])]) for i, j in pairs(X)])


@d('distribute')
def _(I, *a):
    if len(a) == 3:
        c, v, b = a
        return And([S.ceq(num(c.e[i]), cnt([eq(y, v.e[i]) for y in b.e])) for i in range(len(v.e))])
    v, b = a
    return Arr(v.dims, [cnt([eq(y, z) for y in b.e]) for z in v.e])


@d('element', 'element_int', 'element_bool', 'element_set')
def _(I, i, x, y):
    l, h = x.dims[0]
    i = num(i)
    return Or([And(S.ceq(i, l + k), eq(x.e[k], y)) for k in range(len(x.e))])


@d('global_cardinality')
def _(I, x, cover, counts=None):
    if counts is None:
        return Arr(cover.dims, [cnt(occ(x, v)) for v in cover.e])
    return And([S.ceq(num(c), cnt(occ(x, v))) for v, c in zip(cover.e, counts.e)])


@d('global_cardinality_closed')
def _(I, x, cover, counts=None):
    cl = And([Or([eq(y, v) for v in cover.e]) for y in ints(x)])
    if counts is None:
        I.require(cl)
        return Arr(cover.dims, [cnt(occ(x, v)) for v in cover.e])
    return And(cl, *[S.ceq(num(c), cnt(occ(x, v))) for v, c in zip(cover.e, counts.e)])


@d('global_cardinality_low_up')
def _(I, x, cover, lo, up):
    return And([And(S.le(num(l), cnt(occ(x, v))), S.le(cnt(occ(x, v)), num(u))) for v, l, u in zip(cover.e, lo.e, up.e)])


@d('global_cardinality_low_up_closed')
def _(I, x, cover, lo, up):
    return And(F['global_cardinality_low_up'](I, x, cover, lo, up),
               And([Or([eq(y, v) for v in cover.e]) for y in ints(x)]))


def mono(f):
    def g(I, x):
        if hasopt(x):
            o = [toopt(v) for v in x.e]
            return And([Or(Not(o[i].p), Not(o[j].p), f(o[i].v, o[j].v)) for i, j in pairs(o)])
        return And([f(a, b) for a, b in zip(x.e, x.e[1:])])
    return g


for sfx in ('', '_int', '_bool', '_set', '_float'):
    F['increasing' + sfx] = mono(leq)
    F['decreasing' + sfx] = mono(lambda a, b: leq(b, a))
F['strictly_increasing'] = mono(less)
F['strictly_decreasing'] = mono(lambda a, b: less(b, a))


@d('int_set_channel')
def _(I, x, y):
    lx, hx = x.dims[0]
    ly, hy = y.dims[0]
    xs = ints(x)
    c = [And(S.le(ly, v), S.le(v, hy)) for v in xs]
    for s in y.e:
        c.append(subset(s, Rng(lx, hx)))
    for i in range(len(xs)):
        for j in range(len(y.e)):
            c.append(Iff(S.ceq(xs[i], ly + j), toset(y.e[j]).has(lx + i)))
    return And(c)


@d('inverse')
def _(I, f, g=None):
    if g is None:
        raise Unsupported("inverse/1")
    lf, hf = f.dims[0]
    lg, hg = g.dims[0]
    F_, G_ = [toopt(v) for v in f.e], [toopt(v) for v in g.e]
    c = []
    for v in F_:
        c.append(Implies(v.p, And(S.le(lg, num(v.v)), S.le(num(v.v), hg))) if v.p is not False else True)
    for v in G_:
        c.append(Implies(v.p, And(S.le(lf, num(v.v)), S.le(num(v.v), hf))) if v.p is not False else True)
    for i in range(len(F_)):
        for j in range(len(G_)):
            a = And(F_[i].p, S.ceq(num(F_[i].v), lg + j)) if F_[i].p is not False else False
            b = And(G_[j].p, S.ceq(num(G_[j].v), lf + i)) if G_[j].p is not False else False
            c.append(Iff(a, b))
    return And(c)


@d('inverse_in_range')
def _(I, f, g):
    lf, hf = f.dims[0]
    lg, hg = g.dims[0]
    F_, G_ = ints(f), ints(g)
    c = []
    for i in range(len(F_)):
        for j in range(len(G_)):
            c.append(Iff(S.ceq(F_[i], lg + j), S.ceq(G_[j], lf + i)))
    return And(c)


@d('inverse_set')
def _(I, f, g):
    lf, hf = f.dims[0]
    lg, hg = g.dims[0]
    c = [subset(s, Rng(lg, hg)) for s in f.e] + [subset(s, Rng(lf, hf)) for s in g.e]
    for i in range(len(f.e)):
        for j in range(len(g.e)):
            c.append(Iff(toset(f.e[i]).has(lg + j), toset(g.e[j]).has(lf + i)))
    return And(c)


@d('knapsack')
def _(I, w, p, x, W, P):
    xs = ints(x)
    return And([S.le(0, v) for v in xs] +
               [S.ceq(S.isum([S.mul(num(a), v) for a, v in zip(w.e, xs)]), num(W)),
                S.ceq(S.isum([S.mul(num(a), v) for a, v in zip(p.e, xs)]), num(P))])


def lexf(strict, rev):
    def f(I, x, y):
        a, b = (y.e, x.e) if rev else (x.e, y.e)
        return arrlex(a, b, strict)
    return f


for sfx in ('', '_int', '_bool', '_set'):
    F['lex_less' + sfx] = lexf(True, False)
    F['lex_lesseq' + sfx] = lexf(False, False)
F['lex_greater'] = lexf(True, True)
F['lex_greatereq'] = lexf(False, True)


def cols(a):
    r = rows(a) if False else raws(a)
    return [list(c) for c in zip(*r)]


def raws(a):
    n = a.dims[1][1] - a.dims[1][0] + 1
    return [a.e[k * n:(k + 1) * n] for k in range(a.dims[0][1] - a.dims[0][0] + 1)]


@d('lex2')
def _(I, x): return And([arrlex(a, b, False) for m in (raws(x), cols(x)) for a, b in zip(m, m[1:])])
@d('strict_lex2', 'lex2_strict')
def _(I, x): return And([arrlex(a, b, True) for m in (raws(x), cols(x)) for a, b in zip(m, m[1:])])
@d('lex_chain_less')
def _(I, x): return And([arrlex(a, b, True) for a, b in zip(cols(x), cols(x)[1:])])
@d('lex_chain_lesseq')
def _(I, x): return And([arrlex(a, b, False) for a, b in zip(cols(x), cols(x)[1:])])
@d('lex_chain_greater')
def _(I, x): return And([arrlex(b, a, True) for a, b in zip(cols(x), cols(x)[1:])])
@d('lex_chain_greatereq')
def _(I, x): return And([arrlex(b, a, False) for a, b in zip(cols(x), cols(x)[1:])])


@d('link_set_to_booleans')
def _(I, s, b):
    l, h = b.dims[0]
    return And([subset(s, Rng(l, h))] + [Iff(toset(s).has(l + i), b.e[i]) for i in range(len(b.e))])


@d('member', 'member_int', 'member_bool', 'member_set')
def _(I, x, y):
    if isset(x):
        return member(y, x)
    return Or([eq(v, y) for v in x.e])


@d('set_member')
def _(I, s, x): return member(x, s)


@d('nvalue')
def _(I, *a):
    x = a[-1]
    xs = x.e
    n = cnt([And([Not(eq(xs[i], xs[j])) for j in range(i)]) for i in range(len(xs))])
    return n if len(a) == 1 else S.ceq(num(a[0]), n)


@d('partition_set')
def _(I, s, u):
    u = parset(u)
    c = []
    for v in set(u) | set(k for x in s.e for k in toset(x).m):
        occ_ = [toset(x).has(v) for x in s.e]
        c.append(S.ceq(cnt(occ_), 1 if v in u else 0))
    return And(c)


@d('range')
def _(I, *a):
    if len(a) == 2:
        raise Unsupported("range/2")
    x, s, t = a
    l, h = x.dims[0]
    s, t = toset(s), toset(t)
    c = [subset(s, Rng(l, h))]
    vs = set(t.m)
    for v in ints(x):
        vs |= set(range(S.lo(v), S.hi(v) + 1))
    for v in vs:
        c.append(Iff(t.has(v), Or([And(s.has(l + i), eq(y, v)) for i, y in enumerate(ints(x))])))
    return And(c)


@d('roots')
def _(I, *a):
    if len(a) == 2:
        raise Unsupported("roots/2")
    x, s, t = a
    l, h = x.dims[0]
    s = toset(s)
    return And([subset(s, Rng(l, h))] + [Iff(s.has(l + i), member(y, t)) for i, y in enumerate(ints(x))])


def runfa(xs, Q, S_, step, q0, Fin):
    cur = {q0: True}
    c = []
    for v in xs:
        nxt = {}
        for q, cond in cur.items():
            for s in range(1, S_ + 1):
                for t in step(q, s):
                    if t > 0:
                        nxt[t] = Or(nxt.get(t, False), And(cond, S.ceq(v, s)))
        cur = nxt
    return Or([cond for q, cond in cur.items() if q in Fin])


def regexp(xs, text):
    """xs matches the regular expression (identifiers are not supported)"""
    tok = re.findall(r'[0-9]+|\S', text)
    pos = [0]

    def peek():
        return tok[pos[0]] if pos[0] < len(tok) else None

    def nxt():
        pos[0] += 1
        return tok[pos[0] - 1]

    def number():
        t = nxt()
        if not t.isdigit():
            raise Unsupported("regular expression")
        return int(t)

    def expr():
        alts = [term()]
        while peek() == '|':
            nxt()
            alts.append(term())
        return ('alt', alts)

    def term():
        fs = [factor()]
        while peek() not in (None, '|', ')'):
            fs.append(factor())
        return ('seq', fs)

    def factor():
        a = atom()
        t = peek()
        if t == '*':
            nxt()
            return ('rep', a, 0, None)
        if t == '+':
            nxt()
            return ('rep', a, 1, None)
        if t == '?':
            nxt()
            return ('rep', a, 0, 1)
        if t == '{':
            nxt()
            lo = number()
            hi = lo
            if peek() == ',':
                nxt()
                hi = None if peek() == '}' else number()
            if nxt() != '}':
                raise Unsupported("regular expression")
            return ('rep', a, lo, hi)
        return a

    def atom():
        t = nxt()
        if t.isdigit():
            return ('cls', {int(t)}, False)
        if t == '.':
            return ('cls', set(), True)
        if t == '(':
            e = expr()
            if nxt() != ')':
                raise Unsupported("regular expression")
            return e
        if t == '[':
            neg = peek() == '^'
            if neg:
                nxt()
            v = set()
            while peek() != ']':
                lo = number()
                if peek() == '-':
                    nxt()
                    hi = number()
                    v |= set(range(min(lo, hi), max(lo, hi) + 1))
                else:
                    v.add(lo)
            nxt()
            return ('cls', v, neg)
        raise Unsupported("regular expression")
    e = expr()
    if pos[0] != len(tok):
        raise Unsupported("regular expression")
    memo = {}

    def match(e, i, j):
        k = (id(e), i, j)
        if k not in memo:
            memo[k] = match_(e, i, j)
        return memo[k]

    def match_(e, i, j):
        if e[0] == 'cls':
            if j != i + 1:
                return False
            c = Or([S.ceq(xs[i], v) for v in sorted(e[1])])
            return Not(c) if e[2] else c
        if e[0] == 'alt':
            return Or([match(x, i, j) for x in e[1]])
        if e[0] == 'seq':
            cur = {i: True}
            for x in e[1]:
                new = {}
                for m in range(i, j + 1):
                    new[m] = Or([And(c, match(x, l, m)) for l, c in cur.items() if l <= m])
                cur = new
            return cur[j]
        _, x, lo, hi = e
        cur = {i: True}
        acc = [cur.get(j, False)] if lo == 0 else []
        top = hi if hi is not None else lo + (j - i)
        for k in range(1, top + 1):
            new = {}
            for m in range(i, j + 1):
                new[m] = Or([And(c, match(x, l, m)) for l, c in cur.items() if l <= m])
            cur = new
            if k >= lo:
                acc.append(cur.get(j, False))
        return Or(acc)
    return match(e, 0, len(xs))


@d('regular')
def _(I, x, *a):
    if len(a) == 1:
        return regexp(ints(x), a[0])
    Q, S_, dl, q0, Fin = a
    Q = len(parset(Q)) if isset(Q) else Q
    S_ = len(parset(S_)) if isset(S_) else S_
    t = rows(dl)
    return And([And(S.le(1, v), S.le(v, S_)) for v in ints(x)] +
               [runfa(ints(x), Q, S_, lambda q, s: [t[q - 1][s - 1]], q0, parset(Fin))])


@d('regular_nfa')
def _(I, x, Q, S_, dl, q0, Fin):
    t = raws(dl)
    return And([And(S.le(1, v), S.le(v, S_)) for v in ints(x)] +
               [runfa(ints(x), Q, S_, lambda q, s: parset(t[q - 1][s - 1]), q0, parset(Fin))])


@d('cost_regular')
def _(I, x, Q, S_, dl, q0, Fin, cst, C):
    t = rows(dl)
    cs = rows(cst)
    cur = {q0: (True, 0)}
    for v in ints(x):
        nxt = {}
        for q, (cond, cc) in cur.items():
            for s in range(1, S_ + 1):
                tt = t[q - 1][s - 1]
                if tt > 0:
                    g = And(cond, S.ceq(v, s))
                    nc = S.add(cc, cs[q - 1][s - 1])
                    if tt in nxt:
                        nxt[tt] = (Or(nxt[tt][0], g), S.ite(g, nc, nxt[tt][1]))
                    else:
                        nxt[tt] = (g, nc)
        cur = nxt
    return Or([And(cond, S.ceq(num(C), cc)) for q, (cond, cc) in cur.items() if q in parset(Fin)])


@d('sliding_sum')
def _(I, lo, up, seq, vs):
    v = ints(vs)
    r = []
    for i in range(len(v) - seq + 1):
        s = S.isum(v[i:i + seq])
        r += [S.le(lo, s), S.le(s, up)]
    return And(r)


@d('sliding_among')
def _(I, lo, up, seq, vs, S_=None):
    if any(is_bool(x) for x in vs.e):
        v = [S.ite(Iff(x, S_), 1, 0) for x in vs.e]
    else:
        v = [S.ite(member(x, S_), 1, 0) for x in ints(vs)]
    r = []
    for i in range(len(v) - seq + 1):
        s = S.isum(v[i:i + seq])
        r += [S.le(lo, s), S.le(s, up)]
    return And(r)


@d('sum_pred')
def _(I, idx, sets, co, tot):
    l, h = sets.dims[0]
    cl = co.dims[0][0]
    idx, tot = num(idx), num(tot)
    return Or([And(S.ceq(idx, l + k), S.ceq(tot, sum(co.e[m - cl] for m in parset(sets.e[k])))) for k in range(h - l + 1)])


@d('span')
def _(I, s0, d0, s, dd):
    s0 = toopt(s0)
    o = [toopt(v) for v in s.e]
    ds = ints(dd)
    d0 = num(d0)
    c = [Iff(s0.p, Or([v.p for v in o])), Implies(Not(s0.p), S.ceq(d0, 0))]
    if s0.p is not False:
        st, en = num(s0.v), S.add(num(s0.v), d0)
        on = [(v.p, num(v.v), S.add(num(v.v), e)) for v, e in zip(o, ds) if v.p is not False]
        c += [Implies(And(s0.p, p), And(S.le(st, a), S.le(b, en))) for p, a, b in on]
        c.append(Implies(s0.p, And(Or([And(p, S.ceq(a, st)) for p, a, b in on]), Or([And(p, S.ceq(b, en)) for p, a, b in on]))))
    return And(c)



@d('sum_set')
def _(I, vs, ws, x, s):
    t = 0
    for v, w in zip(vs.e, ws.e):
        t = I.bin('+', t, I.bin('*', num(member(v, x)), w))
    return eq(t, s)


@d('table', 'table_int', 'table_bool')
def _(I, x, t):
    if hasopt(x):
        raise Unsupported("table opt")
    return Or([And([eq(a, b) for a, b in zip(x.e, r)]) for r in raws(t)])


@d('value_precede', 'value_precede_int')
def _(I, s, t, x):
    xs = [toopt(v) for v in x.e]
    seen = False
    c = []
    for v in xs:
        if isset(v.v):
            ins, intt = toset(v.v).has(s), toset(v.v).has(t)
            c.append(Implies(And(intt, Not(ins)), seen))
            seen = Or(seen, And(ins, Not(intt)))
        else:
            c.append(Implies(And(v.p, S.ceq(num(v.v), t)), seen) if v.p is not False else True)
            seen = Or(seen, And(v.p, S.ceq(num(v.v), s)) if v.p is not False else False)
    return And(c)


@d('value_precede_chain', 'value_precede_chain_int')
def _(I, c, x):
    cs = [v for v in c.e]
    return And([F['value_precede'](I, a, b, x) for a, b in zip(cs, cs[1:])])


@d('seq_precede_chain')
def _(I, x):
    xs = x.e
    if xs and isset(xs[0]):
        raise Unsupported("seq_precede_chain set")
    mx = 0
    c = []
    for v in ints(x):
        c.append(S.le(v, S.add(mx, 1)))
        mx = S.imax(mx, v)
    return And(c)


@d('alternative')
def _(I, s0, d0, s, dd):
    s0 = toopt(s0)
    o = [toopt(v) for v in s.e]
    ds = ints(dd)
    n = cnt([v.p for v in o])
    return And(S.le(n, 1), Iff(s0.p, Or([v.p for v in o])),
               *[Implies(v.p, And(S.ceq(num(v.v), num(s0.v)), S.ceq(e, num(d0)))) for v, e in zip(o, ds) if v.p is not False])


@d('network_flow', 'network_flow_cost')
def _(I, arc, bal, *a):
    if len(a) == 1:
        flow, w, cost = a[0], None, None
    else:
        w, flow, cost = a
    A = rows(arc)
    fl = ints(flow)
    l, h = bal.dims[0]
    c = []
    for i in range(l, h + 1):
        out = S.isum([f for r, f in zip(A, fl) if r[0] == i])
        inn = S.isum([f for r, f in zip(A, fl) if r[1] == i])
        c.append(S.ceq(S.sub(out, inn), num(bal.e[i - l])))
    if w is not None:
        c.append(S.ceq(num(cost), S.isum([S.mul(num(x), f) for x, f in zip(w.e, fl)])))
    return And(c)


def ends(fr, to):
    return list(zip(ints(fr), ints(to)))


@d('subgraph')
def _(I, *a):
    if len(a) == 6:
        N, E, fr, to, ns, es = a
    else:
        fr, to, ns, es = a
    l = ns.dims[0][0]
    return And([Implies(es.e[k], And(ns.e[u - l], ns.e[v - l])) for k, (u, v) in enumerate(ends(fr, to))])


def reachset(nn, l, arcs, es, start, directed):
    """start: list of conditions per node; returns reach conditions per node"""
    r = list(start)
    for _ in range(nn - 1):
        n2 = list(r)
        for k, (u, v) in enumerate(arcs):
            n2[v - l] = Or(n2[v - l], And(r[u - l], es[k]))
            if not directed:
                n2[u - l] = Or(n2[u - l], And(r[v - l], es[k]))
        r = n2
    return r


@d('connected')
def _(I, fr, to, ns, es):
    l = ns.dims[0][0]
    n = len(ns.e)
    c = [F['subgraph'](I, fr, to, ns, es)]
    for i in range(n):
        st = [(ns.e[i] if j == i else False) for j in range(n)]
        r = reachset(n, l, ends(fr, to), es.e, st, False)
        for j in range(n):
            c.append(Implies(And(ns.e[i], ns.e[j]), r[j]))
    return And(c)


def reach_(directed):
    def f(I, *a):
        if len(a) == 7:
            a = a[2:]
        fr, to, r0, ns, es = a
        l, h = ns.dims[0]
        n = len(ns.e)
        r0 = num(r0)
        c = [F['subgraph'](I, fr, to, ns, es), And(S.le(l, r0), S.le(r0, h))]
        st = [S.ceq(r0, l + j) for j in range(n)]
        c += [Implies(st[j], ns.e[j]) for j in range(n)]
        r = reachset(n, l, ends(fr, to), es.e, st, directed)
        c += [Implies(ns.e[j], r[j]) for j in range(n)]
        return And(c)
    return f


@d('dconnected')
def _(I, fr, to, ns, es):
    l, h = ns.dims[0]
    return Or([F['dreachable'](I, fr, to, r, ns, es) for r in range(l, h + 1)])


F['reachable'] = reach_(False)
F['dreachable'] = reach_(True)


def tree_(directed):
    def f(I, *a):
        b = a[2:] if len(a) == 7 else a
        fr, to, r0, ns, es = b
        reach = F['dreachable' if directed else 'reachable'](I, *b)
        l = ns.dims[0][0]
        # a reachable subgraph is a tree iff #edges = #nodes - 1
        return And(reach, S.ceq(S.add(cnt(es.e), 1), cnt(ns.e)))
    return f


F['tree'] = tree_(False)
F['dtree'] = tree_(True)


@d('dag')
def _(I, fr, to, ns, es):
    l = ns.dims[0][0]
    n = len(ns.e)
    c = [F['subgraph'](I, fr, to, ns, es)]
    arcs = ends(fr, to)
    for i in range(n):
        st = [False] * n
        for k, (u, v) in enumerate(arcs):
            if u - l == i:
                st[v - l] = Or(st[v - l], es.e[k])
        r = reachset(n, l, arcs, es.e, st, True)
        c.append(Not(r[i]))
    return And(c)


def path_(directed):
    def f(I, *a):
        if len(a) == 8:
            a = a[2:]
        fr, to, s, t, ns, es = a
        l, h = ns.dims[0]
        n = len(ns.e)
        s, t = num(s), num(t)
        arcs = ends(fr, to)
        if directed:
            reach = F['dreachable'](I, fr, to, s, ns, es)
        else:
            reach = F['reachable'](I, fr, to, s, ns, es)
        c = [reach, And(S.le(l, t), S.le(t, h)), S.ceq(S.add(cnt(es.e), 1), cnt(ns.e))]
        for j in range(n):
            c.append(Implies(S.ceq(t, l + j), ns.e[j]))
            iss, ist = S.ceq(s, l + j), S.ceq(t, l + j)
            inn = cnt([es.e[k] for k, (u, v) in enumerate(arcs) if v == l + j])
            out = cnt([es.e[k] for k, (u, v) in enumerate(arcs) if u == l + j])
            if directed:
                c.append(Implies(ns.e[j], And(S.ceq(inn, S.ite(iss, 0, 1)), S.ceq(out, S.ite(ist, 0, 1)))))
            else:
                deg = S.add(inn, out)
                want = S.ite(And(iss, ist), 0, S.ite(Or(iss, ist), 1, 2))
                c.append(Implies(ns.e[j], S.ceq(deg, want)))
        return And(c)
    return f


F['path'] = path_(False)
F['dpath'] = path_(True)


def wsum(w, es):
    return S.isum([S.ite(c, k, 0) for k, c in zip(w.e, es.e)])


def steiner_(directed):
    def f(I, N, E, fr, to, w, *a):
        if directed:
            root, ns, es, K = a
            t = F['dtree'](I, fr, to, root, ns, es)
        else:
            ns, es, K = a
            t = Or([F['tree'](I, fr, to, r, ns, es) for r in range(1, N + 1)])
        return And(t, S.ceq(num(K), wsum(w, es)))
    return f


F['steiner'] = steiner_(False)
F['dsteiner'] = steiner_(True)


def wst_(directed):
    def f(I, N, E, fr, to, w, *a):
        ns = Arr([(1, N)], [True] * N)
        if directed:
            return F['dsteiner'](I, N, E, fr, to, w, a[0], ns, *a[1:])
        return F['steiner'](I, N, E, fr, to, w, ns, *a)
    return f


F['weighted_spanning_tree'] = wst_(False)
F['d_weighted_spanning_tree'] = wst_(True)


@d('bounded_path', 'bounded_dpath')
def _(I, *a): raise Unsupported("bounded path")


@d('var_perm_sym', 'var_sqr_sym')
def _(I, *a): raise Unsupported("symmetry")


@d('mdd')
def _(I, x, N, level, E, fr, label, to):
    lv, fr_, to_ = ints(level), ints(fr), ints(to)
    lab = label.e
    cur = {1: True}
    for i, v in enumerate(ints(x)):
        nxt = {}
        for q, c in cur.items():
            for k in range(len(fr_)):
                if fr_[k] == q:
                    nxt[to_[k]] = Or(nxt.get(to_[k], False), And(c, member(v, lab[k])))
        cur = nxt
    return Or([c for q, c in cur.items() if q == 0])


@d('piecewise_linear')
def _(I, *a): raise Unsupported("pwl")
