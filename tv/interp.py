"""Reference interpreter for MiniZinc models over symbolic values.

Written from the language definition, independently of the compiler under test.
Values:
  bool      Python bool or z3 BoolRef
  int       Python int or smt.SI
  float     Fraction or z3 Real
  str       Python str (parameters only)
  Set       value -> membership condition (ints; enum members are ints)
  Rng       parameter range lo..hi with None for an infinite end
  Opt       (present condition, value)
  Arr       (dims [(lo,hi)], elements row-major)
  Tup       list of fields;  Rec  name -> field
Undefinedness is relational: every Boolean-valued expression collects the
definedness conditions of its non-Boolean parts and is false when one fails."""
import z3
from fractions import Fraction
from . import smt as S
from .smt import (SI, Unsupported, And, Or, Not, Implies, Iff, Xor, is_int, is_bool, is_float)
from . import mznparse


class Set:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v is not False}

    def par(self):
        return all(v is True for v in self.m.values())

    def vals(self):
        return sorted(self.m)

    def has(self, v):
        return self.m.get(v, False)


class Rng:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class FRng:
    """float range lo..hi (Fractions) or union of them"""
    __slots__ = ('rs',)

    def __init__(self, rs):
        self.rs = rs


class Opt:
    __slots__ = ('p', 'v')

    def __init__(self, p, v):
        self.p, self.v = p, v


ABSENT = Opt(False, None)


class Arr:
    __slots__ = ('dims', 'e')

    def __init__(self, dims, e):
        self.dims, self.e = dims, e


class Tup(list):
    pass


class Rec(dict):
    pass


class EnumT:
    """enum type: constructors list of ('case',name) / ('ctor',name,inner,n,lo)"""
    def __init__(self, name):
        self.name, self.n, self.cases, self.ctors = name, 0, [], {}


class ParError(Exception):
    """The model is in error (not merely false) for these parameters."""


def parset(v):
    """Set -> python list; Rng -> list"""
    if isinstance(v, Rng):
        if v.lo is None or v.hi is None or v.hi - v.lo > 20000:
            raise Unsupported("huge set")
        return list(range(v.lo, v.hi + 1))
    if isinstance(v, Set):
        if not v.par():
            raise Unsupported("par set expected")
        return v.vals()
    raise Unsupported("set expected, got %r" % (v,))


def mkset(vals):
    return Set({v: True for v in vals})


def toset(v):
    if isinstance(v, Rng):
        return mkset(parset(v))
    if isinstance(v, Arr):
        raise Unsupported("array as set")
    return v


def isset(v):
    return isinstance(v, (Set, Rng))


def scalar(v):
    return is_int(v) or is_bool(v) or is_float(v)


def num(v):
    if is_bool(v):
        return S.b2i(v)
    return v


def ite(c, a, b):
    """merge of two values of the same type"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Opt) or isinstance(b, Opt):
        a, b = toopt(a), toopt(b)
        v = a.v if b.v is None else b.v if a.v is None else ite(c, a.v, b.v)
        return Opt(S.bite(c, a.p, b.p), v)
    if is_bool(a) and is_bool(b):
        return S.bite(c, a, b)
    if is_float(a) or is_float(b):
        return S.rite(c, num(a), num(b))
    if scalar(a) and scalar(b):
        return S.ite(c, num(a), num(b))
    if isset(a) and isset(b):
        a, b = toset(a), toset(b)
        return Set({k: S.bite(c, a.has(k), b.has(k)) for k in set(a.m) | set(b.m)})
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.dims != b.dims:
            raise Unsupported("merge of arrays with different index sets")
        return Arr(a.dims, [ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Tup):
        return Tup(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Rec):
        return Rec((k, ite(c, a[k], b[k])) for k in a)
    if isinstance(a, str) and a == b:
        return a
    raise Unsupported("merge %r %r" % (a, b))


def toopt(v):
    return v if isinstance(v, Opt) else Opt(True, v)


def eq(a, b):
    if isinstance(a, Opt) or isinstance(b, Opt):
        a, b = toopt(a), toopt(b)
        r = And(Not(a.p), Not(b.p))
        if a.p is not False and b.p is not False:
            r = Or(r, And(a.p, b.p, eq(a.v, b.v)))
        return r
    if is_bool(a) and is_bool(b):
        return Iff(a, b)
    if is_float(a) or is_float(b):
        return S.req(num(a), num(b))
    if scalar(a) and scalar(b):
        return S.ceq(num(a), num(b))
    if isset(a) and isset(b):
        if isinstance(a, Rng) and isinstance(b, Rng):
            ea = a.lo is not None and a.hi is not None and a.lo > a.hi
            eb = b.lo is not None and b.hi is not None and b.lo > b.hi
            return (a.lo, a.hi) == (b.lo, b.hi) or (ea and eb)
        a, b = toset(a), toset(b)
        return And([Iff(a.has(k), b.has(k)) for k in set(a.m) | set(b.m)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) != len(b.dims):
            raise Unsupported("array dims")
        if [max(0, h - l + 1) for l, h in a.dims] != [max(0, h - l + 1) for l, h in b.dims] or \
                (a.dims != b.dims and a.e):
            return False
        return And([eq(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Tup):
        return And([eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Rec):
        return And([eq(a[k], b[k]) for k in a])
    if isinstance(a, str):
        return a == b
    raise Unsupported("eq %r %r" % (a, b))


def leq(a, b):
    if is_bool(a) and is_bool(b):
        return Implies(a, b)
    if is_float(a) or is_float(b):
        return S.rle(num(a), num(b))
    if scalar(a) and scalar(b):
        return S.le(num(a), num(b))
    if isset(a) and isset(b):
        return setle(toset(a), toset(b))
    if isinstance(a, str):
        return a <= b
    if isinstance(a, Arr):
        return arrlex(a.e, b.e, False)
    if isinstance(a, Tup):
        return arrlex(list(a), list(b), False)
    if isinstance(a, Rec):
        return arrlex([a[k] for k in sorted(a)], [b[k] for k in sorted(b)], False)
    raise Unsupported("leq %r %r" % (a, b))


def less(a, b):
    if isinstance(a, Arr):
        return arrlex(a.e, b.e, True)
    return Not(leq(b, a)) if not (isset(a) and isset(b)) else And(setle(toset(a), toset(b)), Not(eq(a, b)))


def arrlex(x, y, strict):
    r = len(x) < len(y) or (len(x) == len(y) and not strict)
    for a, b in reversed(list(zip(x, y))):
        r = Or(less(a, b), And(eq(a, b), r))
    return r


def setle(a, b):
    """lexicographic order of the sorted element lists"""
    ks = sorted(set(a.m) | set(b.m))
    # process from smallest: state equal so far; at first difference k:
    # if k in a, not in b: a has k next, b's next element is > k or none -> a<b iff b has further elements (b>k)
    # if k in b not in a: a<=b iff a has no further elements
    r = True
    arest = False
    brest = False
    for k in reversed(ks):
        x, y = a.has(k), b.has(k)
        r = S.bite(And(x, Not(y)), brest, S.bite(And(y, Not(x)), Not(arest), r))
        arest = Or(arest, x)
        brest = Or(brest, y)
    return r


def member(x, s):
    if isinstance(x, Opt):
        if x.p is False:
            return False
        return And(x.p, member(x.v, s))
    if isinstance(s, FRng):
        return Or([And(True if l is None else S.rle(l, num(x)), True if h is None else S.rle(num(x), h)) for l, h in s.rs])
    if isinstance(s, Rng) and is_float(x):
        return And(True if s.lo is None else S.rle(s.lo, x), True if s.hi is None else S.rle(x, s.hi))
    x = num(x)
    if isinstance(s, Rng):
        return And(True if s.lo is None else S.le(s.lo, x), True if s.hi is None else S.le(x, s.hi))
    if isinstance(s, Arr):
        return Or([eq(x, y) for y in s.e])
    if isinstance(x, int):
        return s.has(x)
    if s.par():
        return S.indom(x, s.vals())
    return Or([And(S.ceq(x, k), c) for k, c in s.m.items()])


def card(s):
    if isinstance(s, Rng):
        return max(0, s.hi - s.lo + 1)
    n = sum(1 for v in s.m.values() if v is True)
    return S.isum([n] + [S.b2i(v) for v in s.m.values() if v is not True])


def subset(a, b):
    if isinstance(b, Rng) and not isinstance(a, Rng):
        return And([Not(c) for k, c in a.m.items() if not ((b.lo is None or k >= b.lo) and (b.hi is None or k <= b.hi))])
    if isinstance(a, Rng) and isinstance(b, Rng):
        if a.lo is not None and a.hi is not None and a.lo > a.hi:
            return True
        return (b.lo is None or (a.lo is not None and a.lo >= b.lo)) and (b.hi is None or (a.hi is not None and a.hi <= b.hi))
    a, b = toset(a), toset(b)
    return And([Implies(c, b.has(k)) for k, c in a.m.items()])


def setop(op, a, b):
    if isinstance(a, FRng) or isinstance(b, FRng):
        raise Unsupported("float set op")
    if isinstance(a, Rng) and isinstance(b, Rng) and op == 'intersect':
        l = b.lo if a.lo is None else a.lo if b.lo is None else max(a.lo, b.lo)
        h = b.hi if a.hi is None else a.hi if b.hi is None else min(a.hi, b.hi)
        return Rng(l, h)
    for x, y in ((a, b), (b, a)):
        if op == 'intersect' and isinstance(x, Rng) and isinstance(y, Set):
            return Set({k: c for k, c in y.m.items() if (x.lo is None or k >= x.lo) and (x.hi is None or k <= x.hi)})
    if op == 'diff' and isinstance(b, Rng) and isinstance(a, Set):
        return Set({k: c for k, c in a.m.items() if not ((b.lo is None or k >= b.lo) and (b.hi is None or k <= b.hi))})
    a, b = toset(a), toset(b)
    f = {'union': Or, 'intersect': And, 'diff': lambda p, q: And(p, Not(q)), 'symdiff': Xor}[op]
    return Set({k: f(a.has(k), b.has(k)) for k in set(a.m) | set(b.m)})


class Ctx:
    __slots__ = ('defs', 'guard')

    def __init__(self, guard=True):
        self.defs = []
        self.guard = guard


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, up=None):
        self.d, self.up = {}, up

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.up
        raise Unsupported("unknown identifier " + n)

    def has(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return True
            e = e.up
        return False


class Lazy:
    __slots__ = ('item', 'env', 'busy')

    def __init__(self, item, env):
        self.item, self.env, self.busy = item, env, False


INTB = 32  # bound for unbounded integer source variables (stated)


class Interp:
    def __init__(self, items, flatvals=None, intb=INTB):
        """flatvals: name -> value for declarations without right-hand side (used
        for the output model); otherwise variables become fresh symbols."""
        self.items = items
        self.g = Env()
        self.funs = {}
        self.types = {}
        self.enums = {}
        self.vars = {}       # name -> value  (decision variables without rhs)
        self.varti = {}
        self.domc = []       # domain constraints of fresh variables
        self.flat = flatvals
        self.solve = ('satisfy', None)
        self.outputs = []
        self.ctx = Ctx()
        self.fresh = 0
        self.intb = intb
        self.order = []
        self.depth = 0

    # ---------- model level
    def run(self):
        """Declares everything and returns the root condition."""
        cons = []
        assigns = {}
        for it in self.items:
            if it[0] == 'assign':
                assigns[it[1]] = it[2]
        for it in self.items:
            if it[0] == 'function':
                self.funs.setdefault(it[2], []).append(it)
            elif it[0] == 'typedef':
                self.types[it[1]] = it[2]
            elif it[0] == 'enum':
                d = it[2]
                if d is None:
                    if it[1] not in assigns:
                        raise Unsupported("undefined enum")
                    d = self.enumexpr(assigns[it[1]])
                self.mkenum(it[1], d)
        decls = []
        for it in self.items:
            if it[0] == 'decl':
                if it[3] is None and it[2] in assigns:
                    it = ('decl', it[1], it[2], assigns[it[2]])
                self.g.d[it[2]] = Lazy(it, self.g)
                decls.append(it[2])
        root = Ctx()
        self.ctx = root
        for n in decls:
            self.force(self.g, n)
        for it in self.items:
            if it[0] == 'constraint':
                c = self.ev(it[1], self.g)
                if isinstance(c, Opt):
                    c = Or(Not(c.p), c.v)
                cons.append(c)
            elif it[0] == 'solve':
                if it[1] == 'satisfy':
                    self.solve = ('satisfy', None)
                else:
                    self.solve = (it[1], self.ev(it[2], self.g))
            elif it[0] == 'output':
                self.outputs.append(it[1])
        return And(root.defs + cons)

    def enumexpr(self, e):
        if e[0] == 'set':
            return [('case', x[1]) for x in e[1]]
        if e[0] == 'bin' and e[1] == '++':
            return self.enumexpr(e[2]) + self.enumexpr(e[3])
        if e[0] == 'call':
            return [('ctor', e[1], e[2][0])]
        raise Unsupported("enum definition")

    def mkenum(self, name, d):
        t = EnumT(name)
        for c in d:
            if c[0] == 'case':
                t.n += 1
                t.cases.append(c[1])
                self.g.d[c[1]] = t.n
            else:
                if c[1] in ('_', 'anon_enum'):
                    k = self.parint(self.ev(c[2], self.g))
                    if not isinstance(k, int):
                        raise Unsupported("anon enum")
                    for j in range(k):
                        t.n += 1
                        t.cases.append(None)
                    continue
                if c[2][0] == 'id' and c[2][1] in self.enums:
                    s = list(range(1, self.enums[c[2][1]].n + 1))
                    inner = c[2][1]
                else:
                    s = parset(self.ev(c[2], self.g))
                    inner = None
                if s != list(range(s[0], s[0] + len(s))) if s else False:
                    raise Unsupported("constructor over non-range")
                t.ctors[c[1]] = (t.n, s[0] if s else 1, len(s), inner)
                t.n += len(s)
                t.cases += [(c[1], v) for v in s]
        self.enums[name] = t
        self.g.d[name] = Rng(1, t.n)
        for cn in t.ctors:
            self.g.d['!ctor!' + cn] = (t, cn)

    def parint(self, v):
        if isset(v):
            return card(v)
        return v

    def force(self, env, n):
        e = env
        while e is not None:
            if n in e.d:
                break
            e = e.up
        if e is None:
            raise Unsupported("unknown identifier " + n)
        v = e.d[n]
        if not isinstance(v, Lazy):
            return v
        if v.busy:
            raise Unsupported("cyclic definition of " + n)
        v.busy = True
        _, ti, name, rhs = v.item
        if e is self.g:
            save, self.ctx = self.ctx, (self.rootctx() if True else None)
            val = self.declval(ti, name, rhs, v.env, top=True)
            self.ctx = save
        else:
            val = self.declval(ti, name, rhs, v.env, top=False)
        e.d[n] = val
        return val

    def rootctx(self):
        if not hasattr(self, '_root'):
            self._root = self.ctx
        return self._root

    # ---------- declarations
    def resolve(self, ti):
        """expand type synonyms / named domains"""
        if ti[4][0] == 'named':
            n = ti[4][1]
            if n in self.types:
                t = self.types[n]
                return self.resolve(('ti', ti[1] or t[1], ti[2] or t[2], ti[3] or t[3], t[4],
                                     ti[5] if t[5] is None else t[5], t[6]))
            return ('ti', ti[1], ti[2], ti[3], ('dom', ('id', n)), ti[5], ti[6])
        return ti

    def dims(self, ti, env, rhs=None):
        ds = []
        if len(ti[5]) == 1 and ti[5][0] is not None and rhs is None:
            pass
        for d in ti[5]:
            if d is None:
                ds.append(None)
                continue
            if d[0] == 'tiid':
                ds.append(None)
                continue
            v = self.ev(d, env)
            if isinstance(v, Rng):
                if v.lo is None or v.hi is None:
                    ds.append(None)
                else:
                    ds.append((v.lo, v.hi) if v.lo <= v.hi else (1, 0))
            else:
                vs = parset(v)
                if not vs:
                    ds.append((1, 0))
                elif vs == list(range(vs[0], vs[-1] + 1)):
                    ds.append((vs[0], vs[-1]))
                else:
                    raise Unsupported("non-contiguous index set")
        return ds

    def declval(self, ti, name, rhs, env, top):
        ti = self.resolve(ti)
        if rhs is None:
            if self.flat is not None and name in self.flat:
                v = self.flat[name]
                return v
            if ti[5] is not None:
                ds = self.dims(ti, env)
                if any(d is None for d in ds):
                    raise Unsupported("unbounded array variable")
                n = 1
                for l, h in ds:
                    n *= max(0, h - l + 1)
                et = ti[4][1] if ti[4][0] == 'nested' else (ti[0], ti[1], ti[2], ti[3], ti[4], None, ti[6])
                v = Arr(ds, [self.freshvar(et, "%s@%d" % (name, i), env) for i in range(n)])
            else:
                v = self.freshvar(ti, name, env)
            if top:
                self.vars[name] = v
                self.varti[name] = ti
                self.order.append(name)
            elif self.hasvar(ti):
                raise Unsupported("local free variable")
            return v
        v = self.ev(rhs, env)
        return self.coerce(ti, v, env, True)

    def hasvar(self, ti):
        return ti[1] or (ti[4][0] in ('tuple', 'record')) or ti[4][0] == 'nested'

    def domof(self, ti, env):
        b = ti[4]
        if b[0] == 'dom':
            return self.ev(b[1], env)
        return None

    def coerce(self, ti, v, env, check):
        """bring v to declared type; adds domain definedness when check"""
        ti = self.resolve(ti)
        b = ti[4]
        if ti[5] is not None:
            if not isinstance(v, Arr):
                if isinstance(v, (Set, Rng)):
                    vs = parset(v)
                    v = Arr([(1, len(vs))], vs)
                else:
                    raise Unsupported("array expected")
            ds = self.dims(ti, env, rhs=v)
            nd = []
            for i, d in enumerate(ds):
                vd = v.dims[i] if i < len(v.dims) else None
                if d is None:
                    nd.append(vd)
                else:
                    if vd is None:
                        raise Unsupported("dimension mismatch")
                    if d != vd and not (d[0] > d[1] and vd[0] > vd[1]):
                        raise ParError("index set mismatch")
                    nd.append(d)
            et = b[1] if b[0] == 'nested' else (ti[0], ti[1], ti[2], ti[3], ti[4], None, ti[6])
            return Arr(v.dims, [self.coerce(et, x, env, check) for x in v.e])
        if ti[2]:
            if isinstance(v, Opt):
                if v.p is False:
                    return v
                sub = (ti[0], ti[1], False, ti[3], ti[4], None, ti[6])
                save, self.ctx = self.ctx, Ctx()
                r = self.coerce(sub, v.v, env, check)
                ds = self.ctx.defs
                self.ctx = save
                for d in ds:
                    self.require(Implies(v.p, d))
                return Opt(v.p, r)
            return self.coerce((ti[0], ti[1], False, ti[3], ti[4], None, ti[6]), v, env, check)
        if isinstance(v, Opt):
            if v.p is False:
                raise Unsupported("absent as non-opt")
            if b[0] == 'any':
                return v
            self.require(v.p)
            v = v.v
        if b[0] == 'tuple':
            return Tup(self.coerce(f, x, env, check) for f, x in zip(b[1], v))
        if b[0] == 'record':
            return Rec((n, self.coerce(f, v[n], env, check)) for f, n in b[1])
        if ti[3]:
            v = v if isinstance(v, (Set, Rng, FRng)) else toset(v)
            if b[0] == 'dom' and check:
                d = self.ev(b[1], env)
                self.require(subset(v, d) if not isinstance(v, FRng) else True)
            return v
        if b[0] == 'base':
            if b[1] == 'int':
                return num(v)
            if b[1] == 'float':
                return S.rv(num(v))
            return v
        if b[0] == 'dom':
            d = self.ev(b[1], env)
            if isinstance(d, FRng):
                v = S.rv(num(v))
            elif not is_float(v):
                v = num(v)
            if check:
                self.require(member(v, d))
            return v
        return v

    def freshvar(self, ti, name, env):
        ti = self.resolve(ti)
        b = ti[4]
        if ti[2]:
            p = z3.Bool(name + "!occ") if ti[1] else None
            sub = (ti[0], ti[1], False, ti[3], ti[4], None, ti[6])
            save, self.domc = self.domc, []
            v = self.freshvar(sub, name, env)
            self.domc = save + [S.Implies(p, And(self.domc))] if p is not None else save + self.domc
            return Opt(p, v)
        if b[0] == 'tuple':
            return Tup(self.freshfield(ti, f, "%s.%d" % (name, i + 1), env) for i, f in enumerate(b[1]))
        if b[0] == 'record':
            return Rec((n, self.freshfield(ti, f, "%s.%s" % (name, n), env)) for f, n in b[1])
        if not ti[1]:
            raise Unsupported("parameter without value: " + name)
        if ti[3]:
            if b[0] != 'dom':
                raise Unsupported("unbounded set variable")
            d = self.ev(b[1], env)
            return Set({k: z3.Bool("%s!%d" % (name, k)) for k in parset(d)})
        if b[0] == 'base':
            if b[1] == 'bool':
                return z3.Bool(name)
            if b[1] == 'int':
                v, c = S.var(name, -self.intb, self.intb)
                self.domc.append(c)
                return v
            if b[1] == 'float':
                return z3.Real(name)
        if b[0] == 'dom':
            d = self.ev(b[1], env)
            if isinstance(d, FRng):
                v = z3.Real(name)
                self.domc.append(member(v, d))
                return v
            if isinstance(d, Rng):
                l = -self.intb if d.lo is None else d.lo
                h = self.intb if d.hi is None else d.hi
                if l > h:
                    self.domc.append(False)
                    return l
                v, c = S.var(name, l, h)
                self.domc.append(c)
                return v
            vs = parset(d)
            if not vs:
                self.domc.append(False)
                return 0
            v, c = S.var(name, vs[0], vs[-1])
            self.domc += [c, S.indom(v, vs)]
            return v
        raise Unsupported("variable type %r" % (b,))

    def freshfield(self, ti, f, name, env):
        f = self.resolve(f)
        if ti[1] and not f[1] and f[4][0] in ('base', 'dom') and f[5] is None:
            f = ('ti', True, f[2], f[3], f[4], f[5], f[6])
        if f[5] is not None:
            return self.declvalarr(f, name, env)
        return self.freshvar(f, name, env)

    def declvalarr(self, ti, name, env):
        ds = self.dims(ti, env)
        n = 1
        for l, h in ds:
            n *= max(0, h - l + 1)
        et = ti[4][1] if ti[4][0] == 'nested' else (ti[0], ti[1], ti[2], ti[3], ti[4], None, ti[6])
        return Arr(ds, [self.freshvar(et, "%s@%d" % (name, i), env) for i in range(n)])

    # ---------- expressions
    def require(self, c):
        if c is not True:
            self.ctx.defs.append(c)

    def ev(self, e, env):
        save = self.ctx
        self.ctx = Ctx()
        try:
            v = self.ev1(e, env)
        finally:
            mine = self.ctx
            self.ctx = save
        if is_bool(v):
            return And(mine.defs + [v]) if mine.defs else v
        self.ctx.defs.extend(mine.defs)
        return v

    def guarded(self, c, e, env):
        """evaluate e whose definedness only matters under condition c"""
        save, self.ctx = self.ctx, Ctx()
        try:
            v = self.ev(e, env)
        finally:
            mine, self.ctx = self.ctx, save
        for d in mine.defs:
            self.require(Implies(c, d))
        return v

    def ev1(self, e, env):
        return getattr(self, 'e_' + e[0])(e, env)

    def e_int(self, e, env): return e[1]
    def e_float(self, e, env): return e[1]
    def e_bool(self, e, env): return e[1]
    def e_str(self, e, env):
        s = e[1]
        if '\\(' in s:
            raise Unsupported("string interpolation")
        return s.replace('\\n', '\n').replace('\\t', '\t').replace('\\"', '"').replace('\\\\', '\\')
    def e_paren(self, e, env): return self.ev(e[1], env)
    def e_absent(self, e, env): return ABSENT
    def e_inf(self, e, env): raise Unsupported("infinity")
    def e_anon(self, e, env): raise Unsupported("anonymous variable")

    def e_id(self, e, env):
        n = e[1]
        x = env
        while x is not None:
            if n in x.d:
                v = x.d[n]
                if isinstance(v, Lazy):
                    return self.force(env, n)
                return v
            x = x.up
        if n in ('int',):
            return Rng(None, None)
        raise Unsupported("unknown identifier " + n)

    def e_set(self, e, env):
        m = {}
        syms = []
        for x in e[1]:
            v = num(self.ev(x, env))
            if isinstance(v, int):
                m[v] = True
            elif isinstance(v, SI):
                syms.append(v)
            elif isinstance(v, Fraction):
                raise Unsupported("float set literal")
            else:
                raise Unsupported("set element")
        for v in syms:
            for k in range(v.lo, v.hi + 1):
                m[k] = Or(m.get(k, False), S.ceq(v, k))
        return Set(m)

    def e_arr(self, e, env):
        return self.mkarr([self.ev(x, env) for x in e[1]])

    def mkarr(self, vs):
        if any(is_float(v) for v in vs):
            vs = [S.rv(num(v)) if scalar(v) else v for v in vs]
        elif any(is_int(v) for v in vs):
            vs = [num(v) if scalar(v) else v for v in vs]
        if vs and isinstance(vs[0], Arr):
            raise Unsupported("nested arrays")
        return Arr([(1, len(vs))], vs)

    def e_arr2(self, e, env):
        rows = e[1]
        vs = [self.ev(x, env) for r in rows for x in r]
        a = self.mkarr(vs)
        return Arr([(1, len(rows)), (1, len(rows[0]) if rows else 0)], a.e)

    def e_iarr(self, e, env):
        idx = []
        vs = []
        for i, x in e[1]:
            if i is None:
                idx.append(None)
            else:
                k = self.ev(i, env)
                if isinstance(k, Tup):
                    k = tuple(k)
                elif isinstance(k, int):
                    k = (k,)
                else:
                    raise Unsupported("index")
                idx.append(k)
            vs.append(self.ev(x, env))
        if idx[0] is not None and len(idx) > 1 and idx[1] is None:
            idx = [(idx[0][0] + j,) for j in range(len(vs))]
        return self.fromidx(idx, self.mkarr(vs).e)

    def fromidx(self, idx, vs):
        if not idx:
            return Arr([(1, 0)], [])
        nd = len(idx[0])
        dims = [(min(i[d] for i in idx), max(i[d] for i in idx)) for d in range(nd)]
        m = {}
        for i, v in zip(idx, vs):
            if i in m:
                raise Unsupported("duplicate index")
            m[i] = v
        out = []
        for i in allidx(dims):
            if i not in m:
                raise Unsupported("missing index")
            out.append(m[i])
        return Arr(dims, out)

    def e_tuple(self, e, env): return Tup(self.ev(x, env) for x in e[1])
    def e_record(self, e, env): return Rec((n, self.ev(x, env)) for n, x in e[1])

    def e_field(self, e, env):
        v = self.ev(e[1], env)
        if isinstance(v, Arr):
            return Arr(v.dims, [x[e[2] - 1] if isinstance(e[2], int) else x[e[2]] for x in v.e])
        return v[e[2] - 1] if isinstance(e[2], int) else v[e[2]]

    def e_un(self, e, env):
        v = self.ev(e[2], env)
        if isinstance(v, Opt):
            if v.p is False:
                return v
            return Opt(v.p, self.un(e[1], v.v))
        return self.un(e[1], v)

    def un(self, op, v):
        if op == 'not':
            return Not(v)
        if is_float(v):
            return -v
        return S.neg(num(v))

    def e_bin(self, e, env):
        op = e[1]
        a = self.ev(e[2], env)
        if op == 'default':
            if not isinstance(a, Opt):
                return a
            b = self.guarded(Not(a.p), e[3], env)
            if a.p is False:
                return b
            if isinstance(b, Opt):
                return Opt(Or(a.p, b.p), a.v if b.v is None else ite(a.p, a.v, b.v))
            return ite(a.p, a.v, b)
        if op == '..':
            if e[2][0] == 'un' and e[2][2][0] == 'inf':
                pass
        b = self.ev(e[3], env)
        return self.bin(op, a, b)

    def bin(self, op, a, b):
        if isinstance(a, Opt) or isinstance(b, Opt):
            r = self.binopt(op, a, b)
            if r is not NotImplemented:
                return r
        if op in ('/\\', '\\/', '->', '<-', '<->', 'xor'):
            return {'/\\': And, '\\/': Or, '->': Implies, '<-': lambda x, y: Implies(y, x),
                    '<->': Iff, 'xor': Xor}[op](a, b)
        if op == '=':
            return eq(a, b)
        if op == '!=':
            return Not(eq(a, b))
        if op == '<=':
            return leq(a, b)
        if op == '>=':
            return leq(b, a)
        if op == '<':
            return less(a, b)
        if op == '>':
            return less(b, a)
        if op == 'in':
            return member(a, b)
        if op == 'subset':
            return subset(a, b)
        if op == 'superset':
            return subset(b, a)
        if op in ('union', 'intersect', 'diff', 'symdiff'):
            return setop(op, a, b)
        if op in ('..', '..<', '<..', '<..<'):
            a, b = num(a), num(b)
            if is_float(a) or is_float(b):
                return FRng([(S.rv(a), S.rv(b))])
            if op[0] == '<':
                a = S.add(a, 1)
            if op[-1] == '<':
                b = S.sub(b, 1)
            if isinstance(a, int) and isinstance(b, int):
                return Rng(a, b)
            return Set({k: And(S.le(a, k), S.le(k, b)) for k in range(S.lo(a), S.hi(b) + 1)})
        if op == '++':
            if isinstance(a, str):
                return a + b
            if isinstance(a, Tup):
                return Tup(list(a) + list(b))
            if isinstance(a, Rec):
                return Rec(list(a.items()) + list(b.items()))
            return self.mkarr(a.e + b.e)
        a, b = num(a), num(b)
        if op == '/':
            a, b = S.rv(a), S.rv(b)
            self.require(Not(S.req(b, Fraction(0))))
            return S.rop('/', a, b)
        if is_float(a) or is_float(b):
            if op in '+-*':
                return S.rop(op, a, b)
            if op == '^':
                return self.fpow(a, b)
            raise Unsupported("float op " + op)
        if op == '+':
            return S.add(a, b)
        if op == '-':
            return S.sub(a, b)
        if op == '*':
            return S.mul(a, b)
        if op in ('div', 'mod'):
            self.require(Not(S.ceq(b, 0)))
            return S.tdiv(a, b) if op == 'div' else S.tmod(a, b)
        if op == '^':
            return self.pow(a, b)
        raise Unsupported("operator " + op)

    def fpow(self, a, b):
        if isinstance(b, (int, Fraction)) and b == int(b) and 0 <= b <= 4:
            r = Fraction(1)
            for _ in range(int(b)):
                r = S.rop('*', r, a)
            return r
        raise Unsupported("float pow")

    def pow(self, a, b):
        """0^negative undefined; |a|>1 to a negative power is 0"""
        self.require(Or(Not(S.ceq(a, 0)), S.le(0, b)))
        if isinstance(b, int):
            if b >= 0:
                r = 1
                for _ in range(b):
                    r = S.mul(r, a)
                if b % 2 == 0 and b > 0 and isinstance(r, SI):
                    r = S.clip(r, 0, r.hi)
                return r
            odd = b % 2 != 0
            return S.ite(S.ceq(a, 1), 1, S.ite(S.ceq(a, -1), -1 if odd else 1, 0))
        if b.hi > 12:
            raise Unsupported("large symbolic exponent")
        r = 0
        for k in range(b.lo, b.hi + 1):
            save, self.ctx = self.ctx, Ctx()
            v = self.pow(a, k)
            self.ctx = save
            r = S.ite(S.ceq(b, k), v, r)
        return r

    def binopt(self, op, a, b):
        A, B = isinstance(a, Opt), isinstance(b, Opt)
        x, y = toopt(a), toopt(b)

        def both(f, absent):
            if x.p is False or y.p is False:
                return absent
            return S.bite(And(x.p, y.p), f(x.v, y.v), absent)
        if op in ('=', '!='):
            r = eq(a, b)
            return r if op == '=' else Not(r)
        if op in ('<', '<=', '>', '>=', '->', '<-', '<->', 'xor'):
            return both(lambda p, q: self.bin(op, p, q), True)
        if op == '~=':
            return both(lambda p, q: eq(p, q), True)
        if op == '~!=':
            return both(lambda p, q: Not(eq(p, q)), True)
        if op == '/\\':
            return And(Or(Not(x.p), x.v if x.v is not None else True), Or(Not(y.p), y.v if y.v is not None else True))
        if op == '\\/':
            return Or(And(x.p, x.v if x.v is not None else False), And(y.p, y.v if y.v is not None else False))
        if op == 'in':
            return member(x, b)
        if op in ('+', '*'):
            u = 0 if op == '+' else 1

            def d(o):
                return u if o.p is False else ite(o.p, num(o.v), u)
            return self.bin(op, d(x), d(y))
        if op in ('-', 'div', '/'):
            if x.p is False:
                return ABSENT
            if y.p is False:
                return a
            save, self.ctx = self.ctx, Ctx()
            v = self.bin(op, x.v, y.v)
            mine, self.ctx = self.ctx, save
            for c in mine.defs:
                self.require(Implies(And(x.p, y.p), c))
            v = ite(y.p, v, num(x.v))
            return Opt(x.p, v) if A else v
        if op == 'mod':
            if x.p is False or y.p is False:
                return ABSENT
            save, self.ctx = self.ctx, Ctx()
            v = self.bin(op, x.v, y.v)
            mine, self.ctx = self.ctx, save
            for c in mine.defs:
                self.require(Implies(And(x.p, y.p), c))
            return Opt(And(x.p, y.p), v)
        if op == '++':
            raise Unsupported("++ opt")
        return NotImplemented

    def e_ite(self, e, env):
        rest = True
        parts = []
        for c, x in e[1]:
            cv = self.guarded(rest, c, env)
            if isinstance(cv, Opt):
                raise Unsupported("opt condition")
            g = And(rest, cv)
            if g is False:
                continue
            # parameters: a false condition skips; a true one ends
            v = self.guarded(g, x, env)
            parts.append((cv, v))
            rest = And(rest, Not(cv))
            if cv is True:
                rest = False
                break
        if rest is not False:
            if e[2] is None:
                v = True
            else:
                v = self.guarded(rest, e[2], env)
            parts.append((True, v))
        r = parts[-1][1]
        for c, v in reversed(parts[:-1]):
            r = ite(c, v, r)
        return r

    def e_let(self, e, env):
        ne = Env(env)
        for it in e[1]:
            if it[0] == 'decl':
                # evaluated in order; definedness belongs to the let's context
                v = self.declval(it[1], it[2], it[3], ne, top=False)
                ne.d[it[2]] = v
            else:
                self.require(self.ev(it[1], ne))
        return self.ev(e[2], ne)

    # ---------- comprehensions
    def gen(self, gens, env, guard, out, i=0):
        """calls out(env, guard) for every combination; guard symbolic for var where"""
        if i == len(gens):
            out(env, guard)
            return
        names, coll, where = gens[i]

        def cont(ne, g):
            if where is not None:
                w = self.guardedw(g, where, ne)
                if w is False:
                    return
                g = And(g, w)
            self.gen(gens, ne, g, out, i + 1)
        if coll[0] == 'genassign':
            ne = Env(env)
            ne.d[names[0]] = self.guarded(guard, coll[1], env)
            cont(ne, guard)
            return
        c = self.guarded(guard, coll, env)
        if isinstance(c, Rng):
            items = [(v, True) for v in parset(c)]
        elif isinstance(c, Set):
            items = [(k, c.m[k]) for k in c.vals()]
        elif isinstance(c, Arr):
            items = [(v, True) for v in c.e]
        else:
            raise Unsupported("generator collection")

        def rec(j, ne, g):
            if j == len(names):
                cont(ne, g)
                return
            for v, cond in items:
                n2 = Env(ne)
                n2.d[names[j]] = v
                rec(j + 1, n2, And(g, cond))
        rec(0, env, guard)

    def guardedw(self, g, e, env):
        w = self.guarded(g, e, env)
        if isinstance(w, Opt):
            w = And(w.p, w.v)
        return w

    def e_comp(self, e, env):
        _, kind, body, gens = e
        res = []

        def out(ne, g):
            if g is False:
                return
            v = self.guarded(g, body, ne)
            res.append((g, v))
        self.gen(gens, env, True, out)
        if kind == 'arr':
            if all(g is True for g, _ in res):
                return self.mkarr([v for _, v in res])
            r = []
            for g, v in res:
                if g is True:
                    r.append(v)
                elif isinstance(v, Opt):
                    r.append(Opt(And(g, v.p), v.v))
                else:
                    r.append(Opt(g, v))
            return Arr([(1, len(r))], r)
        m = {}
        for g, v in res:
            if isinstance(v, Opt):
                g, v = And(g, v.p), v.v
            v = num(v)
            if isinstance(v, int):
                m[v] = Or(m.get(v, False), g)
            elif isinstance(v, SI):
                for k in range(v.lo, v.hi + 1):
                    m[k] = Or(m.get(k, False), And(g, S.ceq(v, k)))
            else:
                raise Unsupported("set comprehension element")
        return Set(m)

    def e_icomp(self, e, env):
        _, ix, body, gens = e
        idx, vs = [], []

        def out(ne, g):
            if g is not True:
                raise Unsupported("indexed var comprehension")
            k = self.ev(ix, ne)
            idx.append(tuple(k) if isinstance(k, Tup) else (k,))
            vs.append(self.ev(body, ne))
        self.gen(gens, env, True, out)
        return self.fromidx(idx, self.mkarr(vs).e)

    def e_gcall(self, e, env):
        _, name, gens, body = e
        arr = self.ev(('comp', 'arr', body, gens), env)
        return self.call(name, [arr], env)

    # ---------- array access
    def e_acc(self, e, env):
        a = self.ev(e[1], env)
        if isinstance(a, (Set, Rng)):
            vs = parset(a)
            a = Arr([(1, len(vs))], vs)
        ix = []
        for x in e[2]:
            if isinstance(x, tuple) and x[0] == 'slice':
                ix.append(('slice', None if x[1] is None else self.ev(x[1], env),
                           None if x[2] is None else self.ev(x[2], env)))
            else:
                ix.append(self.ev(x, env))
        if len(ix) == 1 and isinstance(ix[0], Tup):
            ix = list(ix[0])
        if any(isset(i) or (isinstance(i, tuple) and i[0] == 'slice') for i in ix):
            return self.slice(a, ix)
        return self.access(a, ix)

    def slice(self, a, ix):
        sel = []
        dims = []
        for i, (l, h) in zip(ix, a.dims):
            if isinstance(i, tuple):
                b = l if i[1] is None else i[1]
                t = h if i[2] is None else i[2]
                i = Rng(b, t)
            if isset(i):
                if isinstance(i, Set) and not i.par():
                    raise Unsupported("var slice")
                vs = parset(i)
                for v in vs:
                    if not l <= v <= h:
                        self.require(False)
                        vs = [w for w in vs if l <= w <= h]
                        break
                sel.append(vs)
                if vs and vs != list(range(vs[0], vs[-1] + 1)):
                    raise Unsupported("slice with holes")
                dims.append((vs[0], vs[-1]) if vs else (1, 0))
            else:
                sel.append(i)
        outer = [list(s) if isinstance(s, list) else [s] for s in sel]
        out = []

        def rec(d, pre):
            if d == len(outer):
                out.append(self.access(a, pre))
                return
            for v in outer[d]:
                rec(d + 1, pre + [v])
        rec(0, [])
        return Arr(dims, out)

    def access(self, a, ix):
        if len(ix) != len(a.dims):
            raise Unsupported("index count")
        if any(isinstance(i, Opt) for i in ix):
            # absent index gives an absent element
            p = And([i.p for i in ix if isinstance(i, Opt)])
            if p is False:
                return ABSENT
            save, self.ctx = self.ctx, Ctx()
            v = self.access(a, [i.v if isinstance(i, Opt) else i for i in ix])
            mine, self.ctx = self.ctx, save
            for d in mine.defs:
                self.require(Implies(p, d))
            v = toopt(v)
            return Opt(And(p, v.p), v.v)
        ix = [num(i) for i in ix]
        for i, (l, h) in zip(ix, a.dims):
            self.require(And(S.le(l, i), S.le(i, h)))
        if not a.e:
            raise Unsupported("access to empty array")
        cand = [(i, pos) for pos, i in enumerate(allidx(a.dims))]
        r = None
        for t, pos in reversed(cand):
            c = And([S.ceq(x, k) for x, k in zip(ix, t)])
            if c is False:
                continue
            r = a.e[pos] if r is None else ite(c, a.e[pos], r)
        if r is None:
            r = a.e[0]
        return r

    # ---------- calls
    def e_call(self, e, env):
        name = e[1]
        args = e[2]
        nm = name.strip("'`") if name[0] in "'`" else name
        if nm in ('lb', 'ub', 'dom', 'lb_array', 'ub_array', 'dom_array', 'is_fixed', 'fix', 'has_bounds'):
            raise Unsupported(nm)
        if nm == 'assert':
            c = self.ev(args[0], env)
            if c is not True:
                raise ParError("assertion")
            return self.ev(args[2], env) if len(args) > 2 else True
        if nm in ('trace',):
            return self.ev(args[1], env)
        if nm == 'if_then_else':
            raise Unsupported(nm)
        pos = []
        named = {}
        for a in args:
            if a[0] == 'named':
                named[a[1]] = self.ev(a[2], env)
            else:
                pos.append(self.ev(a, env))
        return self.call(nm, pos, env, named)

    def call(self, name, args, env, named=None):
        fs = self.funs.get(name)
        if fs:
            best = None
            for f in fs:
                sc = self.match(f[3], args, named or {})
                if sc is not None and (best is None or sc > best[0]):
                    best = (sc, f)
            if best is not None:
                return self.callfun(best[1], args, named or {})
        try:
            c = self.g.get('!ctor!' + name)
            t, cn = c
            off, lo, n, inner = t.ctors[cn]
            v = args[0]
            if isset(v):
                v = setop('intersect', v, Rng(lo, lo + n - 1))
                return Set({k - lo + 1 + off: cnd for k, cnd in toset(v).m.items()})
            v = num(v)
            if inner is None:
                self.require(member(v, Rng(lo, lo + n - 1)))
            r = S.add(v, off - lo + 1)
            return S.clip(r, off + 1, off + n) if isinstance(r, SI) else r
        except Unsupported:
            pass
        if name.endswith('^-1'):
            try:
                t, cn = self.g.get('!ctor!' + name[:-3])
            except Unsupported:
                raise Unsupported(name)
            off, lo, n, inner = t.ctors[cn]
            v = args[0]
            if isinstance(v, Opt):
                raise Unsupported("opt constructor argument")
            if isset(v):
                v = setop('intersect', v, Rng(off + 1, off + n))
                return Set({k - off - 1 + lo: cnd for k, cnd in toset(v).m.items()})
            self.require(member(num(v), Rng(off + 1, off + n)))
            r = S.add(num(v), lo - off - 1)
            return S.clip(r, lo, lo + n - 1) if isinstance(r, SI) else r
        from . import stdfuns
        f = stdfuns.F.get(name)
        if f is None and self.flat is not None:
            from . import fzn
            f = fzn.P.get(name)
            if f is not None:
                return f(*args)
        if f is None:
            raise Unsupported("function " + name)
        return f(self, *args)

    def match(self, params, args, named):
        if len(args) > len(params):
            return None
        sc = 0
        for i, (ti, n, d) in enumerate(params):
            if i < len(args):
                v = args[i]
            elif n in named:
                v = named[n]
            elif d is not None:
                continue
            else:
                return None
            s = self.matcht(ti, v)
            if s is None:
                return None
            sc += s
        for k in named:
            if k not in [p[1] for p in params]:
                return None
        return sc

    def symbolic(self, v):
        if isinstance(v, (SI, z3.ExprRef)):
            return True
        if isinstance(v, Arr):
            return any(self.symbolic(x) for x in v.e)
        if isinstance(v, Set):
            return not v.par()
        if isinstance(v, Opt):
            return not isinstance(v.p, bool) or self.symbolic(v.v)
        if isinstance(v, (Tup,)):
            return any(self.symbolic(x) for x in v)
        if isinstance(v, Rec):
            return any(self.symbolic(x) for x in v.values())
        return False

    def matcht(self, ti, v):
        ti = self.resolve(ti)
        b = ti[4]
        if b[0] == 'any':
            return 0
        if ti[5] is not None:
            if not isinstance(v, Arr):
                return None
            if len(ti[5]) != len(v.dims) and ti[5][0] is not None and ti[5][0][0] != 'tiid' or len(ti[5]) != len(v.dims) and ti[5][0] is None:
                return None
            if not v.e:
                return 1
            et = b[1] if b[0] == 'nested' else (ti[0], ti[1], ti[2], ti[3], ti[4], None, ti[6])
            ss = [self.matcht(et, x) for x in v.e]
            return None if any(s is None for s in ss) else min(ss)
        if isinstance(v, Arr):
            return None
        if isinstance(v, Opt):
            if not ti[2]:
                return None
            if v.v is None:
                return 1
            return self.matcht((ti[0], ti[1], False, ti[3], ti[4], None, ti[6]), v.v)
        s = 0 if ti[2] else 1
        if b[0] in ('tuple', 'record'):
            return s if isinstance(v, (Tup, Rec)) else None
        if ti[3]:
            return s if isset(v) else None
        if isset(v) or isinstance(v, (Tup, Rec)):
            return None
        if not ti[1] and self.flat is None and self.symbolic(v):
            return None
        if not ti[1] and self.flat is None:
            s += 1
        if b[0] == 'dom':
            return s + 3 if is_int(v) or is_float(v) else s
        if b[0] == 'tiid':
            return s
        t = b[1]
        if t == 'bool':
            return s + 5 if is_bool(v) else None
        if t == 'int':
            return s + 4 if is_int(v) else (s + 1 if is_bool(v) else None)
        if t == 'float':
            return s + 4 if is_float(v) else (s if scalar(v) else None)
        if t == 'string':
            return s + 5 if isinstance(v, str) else None
        return s

    def callfun(self, f, args, named):
        _, rti, name, params, body = f
        if body is None:
            raise Unsupported("no body for " + name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        ne = Env(self.g)
        for i, (ti, n, d) in enumerate(params):
            if i < len(args):
                v = args[i]
            elif n in named:
                v = named[n]
            else:
                v = self.ev(d, ne)
            ne.d[n] = self.coerce(ti, v, ne, True)
        r = self.ev(body, ne)
        r = self.coerce(rti, r, ne, True)
        self.depth -= 1
        return r


def allidx(dims):
    if len(dims) == 1:
        return [(i,) for i in range(dims[0][0], dims[0][1] + 1)]
    rest = allidx(dims[1:])
    return [(i,) + r for i in range(dims[0][0], dims[0][1] + 1) for r in rest]
